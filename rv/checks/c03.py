"""C03: which predictions are explained: user function, else probability of class 1, else predict."""
import functools

import numpy as np

from rv import gen, oracles
from rv.common import (AdditivityMeter, FriedmanHStatisticMethod, GreenwellMethod, PartialDependenceBasedImportance,
                       PartialDependenceCalculator, PermutationImportance, SejongOhMethod, feature_table, pair_table,
                       pairs_of, unordered, compare_tables, is_num)
from rv.core import Check
from artemis._utilities.performance_metrics import MSE, Accuracy


class ProbaOnly:
    """no predict at all"""
    def __init__(self, clf):
        self._clf = clf

    def predict_proba(self, X):
        return self._clf.predict_proba(X)


class Opaque:
    """neither predict nor predict_proba: usable with a predict function only"""


class Falsy:
    """a callable object that is not true"""
    def __init__(self, fn):
        self._fn = fn

    def __call__(self, model, X):
        return self._fn(model, X)

    def __bool__(self):
        return False


class Empty:
    """a callable pipeline of steps, of which there are none"""
    def __init__(self, fn):
        self._fn = fn

    def __call__(self, model, X):
        return self._fn(model, X)

    def __len__(self):
        return 0


def choice(case):
    data = gen.make_data(case, n=case.randint(3, 14), p=case.randint(2, 4), max_uniques=4)
    rec = gen.Recorder(keep=True)
    fn, other = gen.make_fn(case, data), gen.make_fn(case, data)
    kind = case.choice(["user_over_classifier", "user_over_regressor", "user_opaque", "classifier", "regressor", "proba_only",
                        "multiclass"])
    pf, expected_how = None, "predict"
    if kind.startswith("user"):
        model = {"user_over_classifier": lambda: gen.Classifier(other, data.types, rec),
                 "user_over_regressor": lambda: gen.Regressor(other, data.types, rec),
                 "user_opaque": Opaque}[kind]()
        got_models = []
        base = gen.user_function(fn, data.types, rec)

        def pf(m, X):
            got_models.append(m)
            return base(m, X)
        form = case.choice(["function", "function", "falsy", "empty", "partial", "method"])
        if form in ("falsy", "empty"):
            pf = (Falsy if form == "falsy" else Empty)(pf)
        elif form == "partial":
            pf = functools.partial(pf)
        elif form == "method":
            pf = Falsy(pf).__call__
        f, expected_how = fn, "user"
    elif kind == "regressor":
        model, f = gen.Regressor(fn, data.types, rec), fn
    else:
        clf = gen.Classifier(fn, data.types, rec, classes=case.choice([3, 4, 5]) if kind == "multiclass" else 2)
        model, f, expected_how = (ProbaOnly(clf) if kind == "proba_only" else clf), clf.proba1, "predict_proba"
    kw = {} if pf is None and case.flip() else {"predict_function": pf}
    kw.update(gen.batchsize(case, data.n))
    feats = gen.feature_subset(case, data.cols, least=2)
    use = feats or data.cols
    pd = oracles.PD(f, data.M)
    ix = data.cols.index
    who = case.choice(["hstat", "greenwell", "importance", "additivity", "calculator"])
    atol = lambda: 1e-7 * max(1e-9, pd.scale)       # noqa: the scale is known once everything was evaluated
    if who == "hstat":
        m = FriedmanHStatisticMethod(normalized=False)
        m.fit(model, data.X, features=feats, **kw)
        exp = {frozenset(q): oracles.h_ovo(pd, ix(q[0]), ix(q[1]), False) for q in pairs_of(use)}
        compare_tables(case, unordered(pair_table(m)), exp, "interactions of the chosen prediction function", 1e-6, atol)
        compare_tables(case, feature_table(m.ova, m.method), {c: oracles.h_ova(pd, ix(c), False) for c in use},
                       "one-vs-all interactions of the chosen prediction function", 1e-6, atol)
        compare_tables(case, feature_table(m.feature_importance), {c: oracles.pd_importance(pd, ix(c), is_num(data, c)) for c in use},
                       "importance of the chosen prediction function", 1e-6, atol)
    elif who == "greenwell":
        m = GreenwellMethod()
        m.fit(model, data.X, features=feats, **kw)
        exp = {frozenset(q): oracles.greenwell(pd, ix(q[0]), ix(q[1]), is_num(data, q[0]), is_num(data, q[1])) for q in pairs_of(use)}
        compare_tables(case, unordered(pair_table(m)), exp, "interactions of the chosen prediction function", 1e-6, atol)
    elif who == "importance":
        t = PartialDependenceBasedImportance().importance(model, data.X, features=feats, **kw)
        compare_tables(case, feature_table(t), {c: oracles.pd_importance(pd, ix(c), is_num(data, c)) for c in use},
                       "importance of the chosen prediction function", 1e-6, atol)
    elif who == "additivity":
        got = AdditivityMeter().fit(model, data.X, **kw)
        compare_tables(case, {"index": got}, {"index": oracles.additivity(pd)}, "additivity of the chosen prediction function", 1e-6, 1e-7)
    else:
        calc = PartialDependenceCalculator(model, data.X, *(() if pf is None else (pf,)))
        calc.calculate_pd_single()
        for j, c in enumerate(data.cols):
            got = calc.get_pd_single(c, feature_values=data.X[c].values)
            case.close(got, pd.single(j, data.M[:, j]), "partial dependence of the chosen prediction function", rtol=1e-7, atol=atol())
    hows = {c.how for c in rec.calls}
    case.check(hows == {expected_how}, "only the chosen source of predictions is consulted", consulted=sorted(hows), expected=expected_how)
    if kind.startswith("user"):
        case.check(all(g is model for g in got_models), "the prediction function receives the explained model")
    case.count("queries_" + expected_how, rec.n_calls)
    case.note(kind=kind, who=who, data=data.describe(), consulted=sorted(hows))
    case.sign(kind, who, data.n, len(data.cols), feats, tuple(data.describe()["uniques"]))


def performance(case):
    """performance based methods score `predict`, also of models with probabilities"""
    data = gen.make_data(case, n=case.randint(3, 14), p=case.randint(2, 4))
    rec = gen.Recorder()
    clf = case.flip()
    model = (gen.Classifier if clf else gen.Regressor)(gen.make_fn(case, data), data.types, rec)
    y = case.rng.integers(0, 2, data.n) if clf else case.rng.normal(size=data.n)
    metric = case.choice([MSE(), Accuracy()]) if clf else MSE()
    if case.flip():
        SejongOhMethod(metric, random_state=1).fit(model, data.X, y, n_repeat=2)
        who = "sejong"
    else:
        PermutationImportance(metric, random_state=1).importance(model, data.X, y, n_repeat=2, features=list(data.cols))
        who = "importance"
    hows = {c.how for c in rec.calls}
    case.check(hows == {"predict"}, "performance is measured on predict", consulted=sorted(hows))
    case.count("queries_performance", rec.n_calls)
    case.note(who=who, classifier=clf)
    case.sign(who, clf, data.n, len(data.cols), type(metric).__name__)


CHECK = Check(
    "C03", "the right predictions are explained",
    {"choice": (choice, 560, 16000), "performance": (performance, 80, 2000)},
    required={"queries_user": 100, "queries_predict_proba": 100, "queries_predict": 50, "queries_performance": 100, "oracle_evaluations": 1000},
    rule="models offering several, differing sources of predictions; which one was consulted and which one the results "
         "belong to; distinct by kind of model, computation and data shape")
