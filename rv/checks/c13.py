"""C13: conditional minimal depth equals its definition on every forest."""
import numpy as np

from rv import oracles, realmodels
from rv.common import ConditionalMinimalDepthMethod
from rv.core import Check
from rv.core import Violation


def judge(case, model, m, names):
    exp = oracles.cond_min_depth([e.tree_ for e in model.estimators_], len(names))
    case.check(list(m.ovo.columns)[:2] == ["root_variable", "variable"] and "n_occurences" in m.ovo.columns and m.method in m.ovo.columns,
               "columns of the table", columns=list(m.ovo.columns))
    keys = list(zip(m.ovo["root_variable"], m.ovo["variable"]))
    case.check(len(keys) == len(set(keys)) and set(keys) == {(names[a], names[b]) for a, b in exp}, "one row per ordered pair of features",
               rows=len(keys), expected=len(exp))
    for (a, b), value, occ in zip(keys, m.ovo[m.method], m.ovo["n_occurences"]):
        e, o = exp[names.index(a), names.index(b)]
        value = float(value) if value is not None else float("nan")
        case.count("oracle_evaluations", 2)
        if int(occ) != o:
            raise Violation("number of trees with the second feature below the first", {"pair": (a, b), "observed": occ, "expected": o})
        if not (np.isnan(e) and np.isnan(value) or abs(e - value) <= 1e-9):
            raise Violation("mean conditional minimal depth", {"pair": (a, b), "observed": value, "expected": e})
        case.count("nonzero_values", int(e != 0))
        case.count("pairs_with_occurrence", int(o > 0))
    ranks = [(-int(o), float(v)) for o, v in zip(m.ovo["n_occurences"], m.ovo[m.method]) if v is not None and not np.isnan(float(v))]
    case.check(ranks == sorted(ranks), "most frequent, then shallowest pair first", got=ranks[:10])


def forest(case):
    X, y = realmodels.numeric_data(case, p=case.choice([2, 3, 4, 5, 6, 11]))
    any_forest(case, X, realmodels.forest(case, X, y))


def large(case):
    any_forest(case, *realmodels.large_forest(case))


def bare(case):
    any_forest(case, *realmodels.bare_forest(case))


def retrained(case):
    """the same forest object, trained again or grown in place"""
    for X, model in realmodels.retrained_forest(case):
        any_forest(case, X, model)
        case.count("states_of_one_model")


def any_forest(case, X, model):
    if sum(e.tree_.node_count > 1 for e in model.estimators_) < len(model.estimators_):
        case.count("forests_with_stumps")
        case.count("forests_without_splits", int(not any(e.tree_.node_count > 1 for e in model.estimators_)))
    m = ConditionalMinimalDepthMethod()
    m.fit(model, show_progress=case.flip(0.1))
    names = list(X.columns)
    case.check(list(m.features_included) == names, "features of the model")
    judge(case, model, m, names)
    case.count("trees", len(model.estimators_))
    case.note(model=repr(model), columns=names, depth=[int(e.tree_.max_depth) for e in model.estimators_],
              top=m.ovo.head(3).values.tolist())
    case.sign(type(model).__name__, len(model.estimators_), tuple(int(e.tree_.node_count) for e in model.estimators_)[:6], len(names))


def unused(case):
    """features no tree uses, features only some trees use"""
    X, y = realmodels.numeric_data(case, p=case.randint(3, 6))
    names = list(X.columns)
    dead = [names[i] for i in case.rng.permutation(len(names))[:case.randint(1, len(names) - 1)]]
    X[dead] = 1.0
    model = realmodels.forest(case, X, y, max_features=1)
    m = ConditionalMinimalDepthMethod()
    m.fit(model)
    judge(case, model, m, names)
    case.count("forests_with_unused_features")
    case.sign("unused", type(model).__name__, len(model.estimators_), tuple(int(e.tree_.node_count) for e in model.estimators_)[:6], len(dead))


CHECK = Check(
    "C13", "conditional minimal depth equals its definition",
    {"forest": (forest, 360, 9000), "unused": (unused, 80, 2000), "large": (large, 24, 400), "bare": (bare, 24, 400), "retrained": (retrained, 40, 1000)},
    required={"nonzero_values": 1500, "pairs_with_occurrence": 1000, "forests_with_unused_features": 40, "trees": 800, "forests_with_stumps": 10, "forests_without_splits": 3, "states_of_one_model": 50},
    rule="random forests / extra trees (regression, classification; depth-first and best-first growth; stumps; unused features) "
         "against a direct recursive evaluation of the definition; distinct by model kind and tree sizes")
