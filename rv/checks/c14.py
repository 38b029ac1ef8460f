"""C14: minimal depth importance equals its definition on every forest."""
import numpy as np

from rv import oracles, realmodels
from rv.common import ConditionalMinimalDepthMethod, check_sorted, feature_table
from rv.core import Check


def forest(case):
    X, y = realmodels.numeric_data(case, p=case.choice([1, 2, 3, 4, 5, 6, 11]) or 2)
    names = list(X.columns)
    if len(names) < 2:
        X["zz"] = case.rng.normal(size=len(X))
        names = list(X.columns)
    if case.flip(0.25):
        X[names[case.randint(0, len(names) - 1)]] = 0.0
    judge(case, X, realmodels.forest(case, X, y))


def large(case):
    judge(case, *realmodels.large_forest(case))


def bare(case):
    judge(case, *realmodels.bare_forest(case))


def retrained(case):
    """the same forest object, trained again or grown in place"""
    for X, model in realmodels.retrained_forest(case):
        judge(case, X, model)
        case.count("states_of_one_model")


def judge(case, X, model):
    names = list(X.columns)
    case.count("forests_without_splits", int(not any(e.tree_.node_count > 1 for e in model.estimators_)))
    m = ConditionalMinimalDepthMethod()
    m.fit(model)
    exp = {names[f]: v for f, v in oracles.min_depth_importance([e.tree_ for e in model.estimators_]).items()}
    t = m.feature_importance
    case.check(list(t.columns) == ["Feature", "Importance"] and len(t) == len(set(t["Feature"])), "one row per feature")
    got = feature_table(t)
    case.check(set(exp) <= set(got) <= set(names), "every feature used by the forest is listed", got=sorted(got), expected=sorted(exp))
    for f, e in exp.items():
        case.check(abs(got[f] - e) <= 1e-9, "mean depth of the shallowest split of the feature", feature=f, observed=got[f], expected=e)
        case.count("nonzero_values", int(e > 0))
    for f in set(got) - set(exp):
        case.check(np.isnan(got[f]), "a feature no tree uses has no depth", feature=f, observed=got[f])
    check_sorted(case, t["Importance"], True, "shallowest feature first")
    case.count("trees", len(model.estimators_))
    case.note(model=repr(model), importance=got)
    case.sign(type(model).__name__, len(model.estimators_), tuple(int(e.tree_.node_count) for e in model.estimators_)[:6], len(names))


CHECK = Check(
    "C14", "minimal depth importance equals its definition",
    {"forest": (forest, 420, 10000), "large": (large, 24, 400), "bare": (bare, 24, 400), "retrained": (retrained, 40, 1000)},
    required={"nonzero_values": 800, "trees": 1000, "forests_without_splits": 3, "states_of_one_model": 50},
    rule="random forests / extra trees against a direct evaluation on every tree; distinct by model kind and tree sizes")
