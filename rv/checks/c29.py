"""C29: the unified trees, splits and pairs of a gradient boosting model are those of the model."""
import json

import numpy as np
import pandas as pd

from rv import monitors, realmodels
from rv.common import SplitScoreMethod
from rv.core import Check
from artemis._utilities._handler import GBTreesHandler


def nodes_of(booster, package):
    """{id: dict(tree, leaf, feature, gain, cover, depth, left, right, parent)} from the library's own dump (not its table)"""
    out = {}

    def put(tree, key, depth, parent, leaf, feature=None, gain=None, cover=None, left=None, right=None):
        out[key] = dict(tree=tree, leaf=leaf, feature=feature, gain=gain, cover=cover, depth=depth, left=left, right=right, parent=parent)

    if package == "xgboost":
        def walk(tree, node, depth, parent):
            key = f"{tree}-{node['nodeid']}"
            if "leaf" in node:
                put(tree, key, depth, parent, True, cover=node["cover"])
                return
            put(tree, key, depth, parent, False, node["split"], node["gain"], node["cover"], f"{tree}-{node['yes']}", f"{tree}-{node['no']}")
            for kid in node["children"]:
                walk(tree, kid, depth + 1, key)
        for t, text in enumerate(booster.get_dump(with_stats=True, dump_format="json")):
            walk(t, json.loads(text), 0, None)
        return out
    dump = booster.dump_model()
    names = dump["feature_names"]

    def key_of(tree, node):
        return f"{tree}-S{node['split_index']}" if "split_index" in node else f"{tree}-L{node.get('leaf_index', 0)}"

    def walk(tree, node, depth, parent):
        key = key_of(tree, node)
        if "split_index" not in node:
            put(tree, key, depth, parent, True)
            return
        kids = (node["left_child"], node["right_child"])
        put(tree, key, depth, parent, False, names[node["split_feature"]], node["split_gain"], None, *(key_of(tree, k) for k in kids))
        for kid in kids:
            walk(tree, kid, depth + 1, key)
    for info in dump["tree_info"]:
        walk(info["tree_index"], info["tree_structure"], 0, None)
    return out


def missing(v):
    return v is None or (isinstance(v, float) and np.isnan(v))


def near(a, b):
    return not missing(a) and abs(float(a) - float(b)) <= 1e-5 * abs(float(b)) + 1e-9


def judge_unified(case, df, truth, package):
    case.check(len(df) == len(truth) and set(df["ID"]) == set(truth), "one row per node of the model", got=len(df), expected=len(truth))
    for r in df.to_dict("records"):
        t = truth[r["ID"]]
        case.check(int(r["tree"]) == t["tree"], "tree of a node", id=r["ID"], got=r["tree"])
        case.check(bool(r["leaf"]) == t["leaf"], "leaves are marked", id=r["ID"], got=r["leaf"])
        if not t["leaf"]:
            case.check(r["split_feature"] == t["feature"], "feature of a split", id=r["ID"], got=r["split_feature"], expected=t["feature"])
            case.check((r["left_child"], r["right_child"]) == (t["left"], t["right"]), "children of a split", id=r["ID"],
                       got=(r["left_child"], r["right_child"]), expected=(t["left"], t["right"]))
            case.check(near(r["gain"], t["gain"]), "gain of a split", id=r["ID"], got=r["gain"], expected=t["gain"])
        if package == "xgboost":
            case.check(near(r["cover"], t["cover"]), "cover of a node", id=r["ID"], got=r["cover"], expected=t["cover"])
        else:
            case.check(missing(r["cover"]) and int(r["depth"]) == t["depth"], "depth of a node (and no cover)", id=r["ID"], got=(r["depth"], r["cover"]))
        case.count("nodes")


def judge_full(case, df, truth, package):
    case.check(len(df) == len(truth) and set(df["ID"]) == set(truth), "the full result has one row per node of the model", got=len(df), expected=len(truth))
    for r in df.to_dict("records"):
        t = truth[r["ID"]]
        case.check(bool(r["leaf"]) == t["leaf"] and int(r["tree"]) == t["tree"], "tree of a node, leaves are marked", id=r["ID"])
        if t["leaf"]:
            case.check(not (r["interaction"] is True), "a leaf is no interaction", id=r["ID"])
            continue
        case.check(r["split_feature"] == t["feature"] and near(r["gain"], t["gain"]), "feature and gain of a split", id=r["ID"])
        case.check(not missing(r["depth"]) and int(r["depth"]) == t["depth"], "depth of a split", id=r["ID"], got=r["depth"], expected=t["depth"])
        p = truth.get(t["parent"])
        if p is None:
            case.check(missing(r["parent_name"]) and missing(r["parent_gain"]) and r["interaction"] is not True, "a root has no parent", id=r["ID"])
            continue
        case.check(r["parent_name"] == p["feature"] and near(r["parent_gain"], p["gain"]), "parent of a split", id=r["ID"],
                   got=(r["parent_name"], r["parent_gain"]), expected=(p["feature"], p["gain"]))
        if package == "xgboost":
            case.check(near(r["cover"], t["cover"]) and near(r["parent_cover"], p["cover"]), "covers of a split and its parent", id=r["ID"])
        if near(p["gain"], t["gain"]):                # the dumps round differently
            if p["gain"] == t["gain"] and r["gain"] == r["parent_gain"]:
                case.check(r["interaction"] != True, "an equally good split is no interaction", id=r["ID"])  # noqa: E712
                case.count("equal_gains")
            continue
        expected = p["gain"] < t["gain"] and p["feature"] != t["feature"]
        case.check((r["interaction"] == True) == expected, "an interaction is a better split below another feature", id=r["ID"],  # noqa: E712
                   got=r["interaction"], expected=expected)
        case.count("interactions" if expected else "no_interactions")


def judge_pairs(case, m, df, only_def, package):
    """the table of all scores of the pairs, from the splits"""
    groups = {}
    for r in df.to_dict("records"):
        if r["leaf"] or missing(r["parent_name"]) or (only_def and r["interaction"] is not True and r["interaction"] != True):  # noqa: E712
            continue
        groups.setdefault((r["parent_name"], r["split_feature"]), []).append(r)
    t = m.full_ovo
    got = {(a, b): r for a, b, r in zip(t["parent_feature"], t["child_feature"], t.to_dict("records"))}
    case.check(len(got) == len(t) and set(got) == set(groups), "one row per pair of consecutive features", got=sorted(got)[:5], expected=sorted(groups)[:5])
    for k, rows in groups.items():
        gain = [float(r["gain"]) for r in rows]
        depth = [float(r["depth"]) for r in rows]
        exp = {"mean_gain": np.mean(gain), "sum_gain": np.sum(gain), "mean_depth": np.mean(depth), "frequency": len(rows)}
        if package == "xgboost":
            cover = [float(r["cover"]) for r in rows]
            exp.update(mean_cover=np.mean(cover), sum_cover=np.sum(cover))
        for name, v in exp.items():
            case.close([float(got[k][name])], [v], f"{name} of a pair", rtol=1e-9, atol=1e-12, pair=k)
        case.count("pairs")


def ensemble(case, kind=None):
    if kind is not None:
        X, (model, booster, package) = {"large": realmodels.large_booster, "special": realmodels.special_booster, "alike": alike}[kind](case)
    else:
        X, y = realmodels.numeric_data(case)
        model, booster, package = realmodels.booster(case, X, y)
    return model, booster, package


def alike(case):
    """ensembles of equally many nodes: two stumps of one of two features"""
    import lightgbm as lgb
    import xgboost as xgb
    X, y = realmodels.numeric_data(case, n=40, p=3, names=["a", "b", "c"])
    X["a"] = np.arange(40.0)
    y = X["a"] + y * 0
    if case.flip():
        m = xgb.XGBRegressor(n_estimators=2, max_depth=1, n_jobs=1).fit(X, y * case.randint(1, 9))
        return X, (m, m.get_booster(), "xgboost")
    m = lgb.LGBMRegressor(n_estimators=2, num_leaves=2, min_child_samples=3, n_jobs=1, verbose=-1).fit(X, y * case.randint(1, 9))
    return X, (m, m.booster_, "lightgbm")


def unified(case, kind=None, made=None):
    if kind is None and made is None and case.flip(0.15):
        kind = "alike"
    model, booster, package = made or ensemble(case, kind)
    truth = nodes_of(booster, package)
    if case.flip(0.3) or kind == "alike":
        handler = GBTreesHandler()
        if case.flip() or kind == "alike":
            handler.unify_structure(ensemble(case, kind)[0])          # replaced by the next
        handler.unify_structure(model)
    else:
        handler = GBTreesHandler(model)
    case.check(handler.package == package, "package of the model", got=handler.package, expected=package)
    judge_unified(case, handler.trees_df, truth, package)
    before = monitors.frame_state(handler.trees_df)
    only = case.flip()
    if any(not t["leaf"] for t in truth.values()):
        m = SplitScoreMethod()
        m.fit(handler if case.flip() else model, only_def_interactions=only)
        judge_full(case, m.full_result, truth, package)
        judge_pairs(case, m, m.full_result, only, package)
        case.check(monitors.frame_state(handler.trees_df) == before, "the unified trees stay as they were")
    case.note(package=package, nodes=len(truth))
    case.sign(package, type(model).__name__, len(truth), only)


def retrained(case):
    """the same model object, trained again or further in place"""
    for _, made in realmodels.retrained_booster(case):
        unified(case, made=made)
        case.count("states_of_one_model")


def large(case):
    unified(case, "large")


def special(case):
    unified(case, "special")


CHECK = Check(
    "C29", "unified trees and splits are those of the model",
    {"unified": (unified, 130, 3000), "large": (large, 20, 400), "special": (special, 40, 1000), "retrained": (retrained, 30, 800)},
    required={"nodes": 3000, "interactions": 100, "no_interactions": 200, "pairs": 200, "states_of_one_model": 50},
    rule="every node of the unified trees and of the full result compared with the library's own dump of the model (JSON, not the table it is made from), "
         "every score of every pair with its splits; distinct by package, class and number of nodes")
