"""C15: split score interactions equal their definition on every boosted ensemble."""
import numpy as np

from rv import boosters, realmodels
from rv.common import SplitScoreMethod, check_sorted, compare_tables, pair_table
from rv.core import Check
from artemis._utilities._handler import GBTreesHandler

METRICS = ["mean_gain", "sum_gain", "mean_cover", "sum_cover", "mean_depth"]


def ensemble(case):
    X, y = realmodels.numeric_data(case, p=case.choice([2, 3, 4, 5, 8, 12]))
    judge(case, X, *realmodels.booster(case, X, y))


def large(case):
    X, made = realmodels.large_booster(case)
    judge(case, X, *made)


def special(case):
    X, made = realmodels.special_booster(case)
    judge(case, X, *made)


def retrained(case):
    """the same model object, trained again or further in place"""
    for X, made in realmodels.retrained_booster(case):
        judge(case, X, *made)
        case.count("states_of_one_model")


def judge(case, X, model, booster, package):
    sp = boosters.splits(booster, package)
    if not sp:
        return
    metrics = METRICS if package == "xgboost" else ["mean_gain", "sum_gain", "mean_depth"]
    handler = GBTreesHandler(model) if case.flip(0.4) else None
    m = SplitScoreMethod()
    for _ in range(2):
        metric = case.choice(metrics + [None])
        only = case.choice([True, False, None])
        kw = {} if metric is None else {"interaction_selected_metric": metric}
        if only is not None:
            kw["only_def_interactions"] = only
        m.fit(handler if handler is not None else model, show_progress=case.flip(0.1), **kw)
        metric = metric or "mean_gain"
        only = True if only is None else only
        exp = boosters.interactions(sp, only, metric)
        got = pair_table(m)
        case.check(len(got) == len(m.ovo) and set(got) == set(exp), "parent-child pairs of the trees, each once",
                   missing=sorted(set(exp) - set(got))[:5], unexpected=sorted(set(got) - set(exp))[:5], rows=len(m.ovo))
        compare_tables(case, got, exp, f"{metric} of the splits of a pair", 1e-9, 1e-9)
        check_sorted(case, m.ovo[m.method], metric == "mean_depth", "strongest interaction first", metric=metric)
        full = m.full_ovo
        for mm in metrics:
            e = boosters.interactions(sp, only, mm)
            g = {(a, b): float(v) for a, b, v in zip(full["parent_feature"], full["child_feature"], full[mm])}
            compare_tables(case, g, e, f"{mm} in the full table", 1e-9, 1e-9)
        case.count("pairs", len(exp))
        case.count("fits_with_interactions", int(len(exp) > 0))
    case.count("trees", len({s["tree"] for s in sp}))
    case.count("package_" + package)
    case.count("splits", len(sp))
    case.note(model=type(model).__name__, package=package, splits=len(sp), trees=len({s["tree"] for s in sp}), metric=metric,
              only_def=only, top=m.ovo.head(3).values.tolist())
    case.sign(type(model).__name__, len(sp), len({s["tree"] for s in sp}), metric, only, X.shape[1])


CHECK = Check(
    "C15", "split score interactions equal their definition",
    {"ensemble": (ensemble, 240, 7000), "large": (large, 32, 500), "special": (special, 60, 1500), "retrained": (retrained, 40, 1000)},
    required={"pairs": 800, "package_xgboost": 40, "package_lightgbm": 40, "fits_with_interactions": 150, "splits": 3000, "states_of_one_model": 60},
    rule="xgboost / lightgbm models (native and scikit-learn API; regression, binary, multiclass; depth- and leaf-wise growth; "
         "stumps) against a walk over the exported trees; distinct by model kind, tree sizes, metric and pair rule",
    assumptions=["trees_to_dataframe of xgboost / lightgbm exports the trees faithfully"])
