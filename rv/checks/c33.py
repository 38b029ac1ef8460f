"""C33: the documented attributes of an object describe its last completed computation."""
from itertools import combinations

import numpy as np
import pandas as pd
from matplotlib import pyplot as plt
from matplotlib.figure import Figure

from rv import boosters, gen, oracles, perf, realmodels
from rv.common import (AdditivityMeter, ConditionalMinimalDepthMethod, FeatureInteractionMethodComparator, FriedmanHStatisticMethod, GreenwellMethod,
                       PartialDependenceBasedImportance, PartialDependenceCalculator, SejongOhMethod, SplitScoreMethod)
from rv.core import Check, Skip
from artemis._utilities._handler import GBTreesHandler
from artemis.importance_methods.model_agnostic import PermutationImportance
from artemis.importance_methods.model_specific import MinimalDepthImportance, SplitScoreImportance

PD_KINDS = {"hstat": FriedmanHStatisticMethod, "greenwell": GreenwellMethod, "importance": PartialDependenceBasedImportance, "additivity": AdditivityMeter}
UNFITTED = {"hstat": ["ovo", "ova", "feature_importance", "model", "X_sampled", "features_included", "pairs", "pd_calculator", "batchsize"],
            "greenwell": ["ovo", "feature_importance", "model", "X_sampled", "features_included", "pairs", "pd_calculator", "batchsize"],
            "importance": ["feature_importance"],
            "additivity": ["additivity_index", "full_result", "preds", "model", "X_sampled", "pd_calculator"],
            "sejong": ["ovo", "feature_importance", "model", "X_sampled", "y_sampled", "features_included", "pairs"],
            "cmd": ["ovo", "feature_importance", "model", "features_included", "pairs"],
            "split": ["ovo", "feature_importance", "model", "metric", "features_included", "pairs"]}


def unfitted(case, kind, m):
    for a in UNFITTED[kind]:
        case.check(getattr(m, a, "missing") is None, "attributes are None before the first fit", attribute=a, kind=kind, got=str(getattr(m, a, "missing")))
        case.count("unfitted_attributes")


def labelled(X, types):
    out = {}
    for label, row in zip(X.index, gen.encode(X, types)):
        k = (label, tuple(row))
        out[k] = out.get(k, 0) + 1
    return out


def judge_sample(case, sampled, X, types, n, what):
    case.check(isinstance(sampled, pd.DataFrame) and list(sampled.columns) == list(X.columns), "columns of the sample", what=what)
    case.check(len(sampled) == (len(X) if n is None else n), "size of the sample", what=what, got=len(sampled), expected=len(X) if n is None else n)
    case.check(list(sampled.dtypes) == list(X.dtypes), "types of the sample", what=what, got=[str(t) for t in sampled.dtypes])
    got, have = labelled(sampled, types), labelled(X, types)
    case.check(all(have.get(k, 0) >= v for k, v in got.items()), "the sample consists of rows of the data", what=what)
    case.count("samples", int(n is not None))


def judge_features(case, m, feats, cols, what, pairs=True):
    use = list(cols) if feats is None else list(feats)
    case.check(list(m.features_included) == use, "features of the fit", what=what, got=list(m.features_included), expected=use)
    if pairs:
        case.check([tuple(q) for q in m.pairs] == list(combinations(use, 2)), "pairs of the fit", what=what, got=[tuple(q) for q in m.pairs])
    return use


def pd_history(case):
    kind = case.choice(list(PD_KINDS))
    normalized = case.flip()
    m = PD_KINDS[kind](**({"normalized": normalized} if kind == "hstat" else {}), **({} if kind == "importance" else {"random_state": case.choice([None, 4])}))
    unfitted(case, kind, m)
    rounds = case.randint(1, 3)
    for r in range(rounds):
        data = gen.make_data(case, n=case.randint(3, 10), p=case.choice([2, 3, 4, 7]), max_uniques=3)
        setup = gen.make_setup(case, data)
        feats = gen.feature_subset(case, data.cols, least=2) if kind != "additivity" else None
        n, own = (case.randint(1, data.n) if case.flip(0.4) else None), None
        kw = dict(gen.batchsize(case, data.n))
        if n is None and case.flip(0.3):
            own = PartialDependenceCalculator(setup.model, data.X, setup.predict_function, **gen.batchsize(case, data.n))
            kw["pd_calculator"] = own
            if case.flip():
                own.calculate_pd_single()
        if feats is not None:
            kw["features"] = feats
        if kind == "hstat":
            kw["calculate_ova"] = case.flip(0.7)
        out = (m.importance if kind == "importance" else m.fit)(setup.model, data.X, n=n, **setup.kwargs(), **kw)
        judge_sample(case, m.X_sampled, data.X, data.types, n, kind)
        if kind != "importance":
            case.check(m.model is setup.model, "the explained model", kind=kind)
        calc = m.pd_calculator
        case.check(isinstance(calc, PartialDependenceCalculator) and calc.model is setup.model and (own is None or calc is own), "the calculator used", kind=kind)
        case.check(calc.X.equals(m.X_sampled), "the calculator is about the rows used", kind=kind)
        size = own.batchsize if own is not None else kw.get("batchsize", 2000)
        case.check(calc.batchsize == size, "batch size of the calculator", kind=kind, got=calc.batchsize, expected=size)
        if kind in ("hstat", "greenwell"):
            case.check(m.batchsize == size, "batch size of the fit", kind=kind, got=m.batchsize, expected=size)
        use = judge_features(case, m, feats, data.cols, kind, pairs=kind in ("hstat", "greenwell")) if kind != "additivity" else data.cols
        pd_ = oracles.PD(setup.fn, gen.encode(m.X_sampled, data.types), rtol=setup.rtol)
        for c in use:                                      # the values behind the results are there, and those of the rows in X_sampled
            j = data.cols.index(c)
            want = pd_.single(j, pd_.M[:, j])
            got = calc.get_pd_single(c, list(m.X_sampled[c].values))
            case.check(np.allclose(got, want, rtol=1e-5 if setup.rtol < 1e-5 else 1e-3, atol=(1e-6 if setup.rtol < 1e-5 else 1e-3) * max(pd_.scale, 1e-12)),
                       "stored values are those of the rows used", kind=kind, feature=c, got=got.tolist(), expected=want.tolist())
            case.count("stored_values", len(got))
        if kind == "importance":
            case.check(out is m.feature_importance or out.equals(m.feature_importance), "importance returned and kept")
        elif kind == "additivity":
            case.check(out == m.additivity_index or np.isnan(out), "index returned and kept", got=m.additivity_index, expected=out)
            case.check(np.allclose(m.preds, pd_.preds, rtol=1e-3 if setup.rtol > 1e-5 else 1e-9, atol=1e-9 + 1e-4 * pd_.scale * (setup.rtol > 1e-5)),
                       "predictions of the rows used", got=np.asarray(m.preds).tolist())
            case.check(list(m.full_result.columns) == data.cols + ["centered_prediction"] and list(m.full_result.index) == list(m.X_sampled.index),
                       "table of effects of the rows used", got=[str(c) for c in m.full_result.columns])
        else:
            case.check(set(m.feature_importance["Feature"]) == set(use) and m.method in m.ovo.columns, "tables of the fit", kind=kind)
        if kind == "hstat":
            case.check(m.normalized is normalized and (m.ova is None) == (not kw["calculate_ova"]), "settings of the fit", ova=m.ova is not None)
        case.count("fits_" + kind)
    case.sign(kind, rounds, data.n, n, len(use), own is not None, size)


def performance_history(case):
    metric = perf.make_metric(case)
    seed = case.choice([None, 0, 5])
    m = SejongOhMethod(metric, random_state=seed)
    unfitted(case, "sejong", m)
    imp = PermutationImportance(metric, random_state=seed)
    rounds = case.randint(1, 3)
    for r in range(rounds):
        X = perf.unique_data(case, n=case.randint(8, 14), p=case.randint(3, 4))
        y, target = np.arange(len(X)) * 1.0, None
        if isinstance(metric, perf.Accuracy):
            y = np.arange(len(X))
        target = case.choice([lambda: y, lambda: pd.Series(y, index=X.index), lambda: pd.Series(y), lambda: pd.Series(y, index=case.rng.permutation(len(X)) + 7),
                              lambda: list(y)])()
        tracer = perf.Tracer(X)
        model = perf.TraceModel(tracer, case.randint(0, 9), len(X), labels=np.array([0, 1]) if isinstance(metric, perf.Accuracy) else None)
        feats = gen.feature_subset(case, list(X.columns), least=2)
        n = case.randint(2, len(X)) if case.flip(0.5) else None
        m.fit(model, X, target, n=n, n_repeat=case.choice([1, 2]), **({} if feats is None else {"features": feats}))
        case.check(m.model is model, "the explained model", kind="sejong")
        case.check(m.metric is metric and m.random_state == seed, "settings of the method", kind="sejong")
        use = judge_features(case, m, feats, X.columns, "sejong")
        where = [tracer.where[0][v] for v in m.X_sampled.iloc[:, 0]]
        case.check(len(where) == (len(X) if n is None else n) and list(m.X_sampled.columns) == list(X.columns) and len(set(where)) == len(where), "size of the sample")
        for j in range(X.shape[1]):
            case.check([tracer.where[j][v] for v in m.X_sampled.iloc[:, j]] == where, "the sample consists of rows of the data", column=j)
        case.check(np.ravel(np.asarray(m.y_sampled)).tolist() == [y[i] for i in where], "targets of the rows used", got=np.ravel(np.asarray(m.y_sampled)).tolist(), rows=where)
        used = {tuple(sorted(e["rows"])) for e in tracer.events}
        case.check(used == {tuple(sorted(where))}, "the rows in the sample are those queried", got=sorted(used), expected=sorted(where))
        case.check(set(m.feature_importance["Feature"]) == set(use) and m.method in m.ovo.columns, "tables of the fit", kind="sejong")
        out = imp.importance(model, X, target, n_repeat=1, **({} if feats is None else {"features": feats}))
        case.check(imp.metric is metric and (out is imp.feature_importance or out.equals(imp.feature_importance)), "importance returned and kept")
        case.count("fits_sejong")
        case.count("samples", int(n is not None))
    case.sign("sejong", rounds, len(X), n, len(use), type(metric).__name__)


def tree_history(case):
    kind = case.choice(["cmd", "split"])
    m = ConditionalMinimalDepthMethod() if kind == "cmd" else SplitScoreMethod()
    unfitted(case, kind, m)
    rounds = case.randint(1, 3)
    for r in range(rounds):
        X, y = realmodels.numeric_data(case, n=case.randint(20, 50), p=case.randint(2, 5))
        if kind == "cmd":
            model = realmodels.forest(case, X, y, n_estimators=case.choice([1, 3]), max_depth=3)
            if all(e.tree_.node_count == 1 for e in model.estimators_):
                raise Skip("forest without splits")
            m.fit(model)
            use = judge_features(case, m, None, X.columns, kind)
            imp = MinimalDepthImportance()
        else:
            model, booster, package = realmodels.booster(case, X, y, trees=case.choice([1, 4]), depth=case.choice([2, 3]))
            sp = boosters.splits(booster, package)
            if not sp:
                raise Skip("ensemble without splits")
            metric, imp_metric = case.choice(["mean_gain", "sum_gain", "mean_depth"]), case.choice(["mean_gain", "sum_gain", "mean_depth", "root_frequency"])
            given = GBTreesHandler(model) if case.flip(0.3) else model
            m.fit(given, interaction_selected_metric=metric, importance_selected_metric=imp_metric, only_def_interactions=case.flip())
            case.check(m.metric == metric, "metric of the fit", got=m.metric, expected=metric)
            use = list(m.features_included)
            case.check(len(set(use)) == len(use) and set(use) == {s["feature"] for s in sp}, "features of the fit", got=use)
            case.check([tuple(q) for q in m.pairs] == list(combinations(use, 2)), "pairs of the fit", got=[tuple(q) for q in m.pairs])
            model = given
            imp = SplitScoreImportance()
            handler = given if isinstance(given, GBTreesHandler) else GBTreesHandler(given)
            out = imp.importance(handler, selected_metric=imp_metric)
            case.check(imp.selected_metric == imp_metric and out.equals(imp.feature_importance), "metric of the importance", got=imp.selected_metric)
            case.check(handler.package == package and isinstance(handler.trees_df, pd.DataFrame), "package of the handler", got=handler.package)
        case.check(m.model is model, "the explained model", kind=kind)
        case.check(set(m.feature_importance["Feature"]) <= set(use) and m.method in m.ovo.columns, "tables of the fit", kind=kind)
        case.count("fits_" + kind)
    case.sign(kind, rounds, len(X), len(use), len(m.ovo))


def comparator(case):
    data = gen.make_data(case, n=case.randint(5, 9), p=case.randint(3, 4), kinds=["continuous"], index=False)
    c = FeatureInteractionMethodComparator()
    case.check(c.correlations_df is None and c.ovo_profiles_comparison_plot is None, "attributes are None before the first comparison")
    for r in range(case.randint(1, 2)):
        ms = []
        for cls in (FriedmanHStatisticMethod, GreenwellMethod):
            m = cls()
            setup = gen.make_setup(case, data)
            m.fit(setup.model, data.X, **setup.kwargs())
            ms.append(m)
        c.summary(*ms)
        kept = c.ovo_profiles_comparison_plot                       # the figure, in the code together with its axes
        fig = kept[0] if isinstance(kept, tuple) else kept
        case.check(isinstance(fig, Figure) and fig is plt.gcf(), "figure of the comparison", got=type(kept).__name__)
        want = c.correlations(*ms)
        case.check(c.correlations_df.equals(want), "correlations of the comparison", got=c.correlations_df.to_dict(), expected=want.to_dict())
        case.count("comparisons")
        plt.close("all")
    case.sign("comparator", data.n, len(data.cols))


CHECK = Check(
    "C33", "documented attributes describe the last computation",
    {"pd": (pd_history, 220, 5000), "performance": (performance_history, 90, 2000), "trees": (tree_history, 70, 1200), "comparator": (comparator, 16, 250)},
    required=dict({"fits_" + k: 40 for k in ["hstat", "greenwell", "importance", "additivity", "sejong", "cmd", "split"]}, unfitted_attributes=800, samples=90,
                  stored_values=2000, comparisons=10),
    rule="histories of 1-3 fits of one object on random data, models, samples, features, calculators; distinct by kind, rounds and sizes")
