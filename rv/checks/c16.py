"""C16: split score importance equals its definition for all metrics."""
import numpy as np

from rv import boosters, realmodels
from rv.common import SplitScoreMethod, check_sorted, compare_tables, feature_table
from rv.core import Check
from artemis._utilities._handler import GBTreesHandler
from artemis.importance_methods.model_specific import SplitScoreImportance

METRICS = ["mean_gain", "sum_gain", "mean_cover", "sum_cover", "mean_depth", "mean_weighted_depth", "root_frequency",
           "weighted_root_frequency"]


def ensemble(case):
    X, y = realmodels.numeric_data(case, p=case.choice([2, 3, 4, 5, 8, 12]))
    judge(case, X, *realmodels.booster(case, X, y))


def large(case):
    X, made = realmodels.large_booster(case)
    judge(case, X, *made)


def special(case):
    X, made = realmodels.special_booster(case)
    judge(case, X, *made)


def retrained(case):
    """the same model object, trained again or further in place"""
    for X, made in realmodels.retrained_booster(case):
        judge(case, X, *made)
        case.count("states_of_one_model")


def judge(case, X, model, booster, package):
    sp = boosters.splits(booster, package)
    if not sp:
        return
    metrics = METRICS if package == "xgboost" else [q for q in METRICS if "cover" not in q]
    used = sorted({s["feature"] for s in sp})
    for metric in case.rng.permutation(metrics)[:3]:
        metric = str(metric)
        who = case.choice(["method", "method", "handler", "handler_features", "trees_df"])
        features = None
        if who == "method":
            m = SplitScoreMethod()
            m.fit(GBTreesHandler(model) if case.flip(0.3) else model, importance_selected_metric=metric,
                  interaction_selected_metric=case.choice(["sum_gain", "mean_depth"]))
            table = m.feature_importance
        else:
            handler = GBTreesHandler(model)
            imp = SplitScoreImportance()
            kw = {}
            if who == "handler_features":
                if metric == "weighted_root_frequency":
                    continue
                features = [str(c) for c in case.rng.permutation(used)[:case.randint(1, len(used))]]
                kw["features"] = features
            if who == "trees_df":
                kw["trees_df"] = handler.trees_df
            table = imp.importance(handler, selected_metric=metric, **kw)
            case.check(table.equals(imp.feature_importance), "the returned table is the stored one")
        exp = boosters.importance(sp, metric, features)
        got = feature_table(table)
        case.check(list(table.columns) == ["Feature", "Importance"] and len(table) == len(got) and set(got) == set(exp),
                   "one row per (requested) feature the model uses", got=sorted(got), expected=sorted(exp), metric=metric)
        compare_tables(case, got, exp, f"{metric} of the splits of a feature", 1e-9, 1e-9)
        check_sorted(case, table["Importance"], metric in ("mean_depth", "mean_weighted_depth"), "most important feature first", metric=metric)
        case.count("metric_" + metric)
        case.count("features", len(exp))
    case.count("package_" + package)
    case.note(model=type(model).__name__, package=package, splits=len(sp), importance=got, metric=metric, who=who)
    case.sign(type(model).__name__, len(sp), len({s["tree"] for s in sp}), metric, who, X.shape[1])


CHECK = Check(
    "C16", "split score importance equals its definition",
    {"ensemble": (ensemble, 260, 7000), "large": (large, 32, 500), "special": (special, 60, 1500), "retrained": (retrained, 40, 1000)},
    required=dict({"features": 1000, "package_xgboost": 40, "package_lightgbm": 40, "states_of_one_model": 60}, **{"metric_" + m: 10 for m in METRICS}),
    rule="xgboost / lightgbm models against a walk over the exported trees, all eight metrics, standalone and with the "
         "interaction method; distinct by model kind, tree sizes, metric and entry point",
    assumptions=["trees_to_dataframe of xgboost / lightgbm exports the trees faithfully"])
