"""Reference evaluation of gradient boosting trees, from the table the library itself exports."""
import numpy as np


def splits(booster, package):
    """list of splits: dict(tree, feature, gain, cover, depth, parent (index of parent split or None))"""
    df = booster.trees_to_dataframe()
    nodes = {}
    if package == "xgboost":
        for r in df.itertuples(index=False):
            d = r._asdict()
            nodes[d["ID"]] = dict(tree=int(d["Tree"]), leaf=not isinstance(d["Yes"], str), feature=d["Feature"], gain=float(d["Gain"]),
                                  cover=float(d["Cover"]), kids=[d["Yes"], d["No"]])
        roots = [i for i in nodes if i.endswith("-0")]
    else:
        for d in df.to_dict("records"):
            leaf = d["split_feature"] is None or d["left_child"] is None
            nodes[d["node_index"]] = dict(tree=int(d["tree_index"]), leaf=leaf, feature=d["split_feature"],
                                          gain=float(d["split_gain"]) if not leaf else np.nan, cover=np.nan,
                                          kids=[d["left_child"], d["right_child"]])
        roots = [d["node_index"] for d in df.to_dict("records") if d["parent_index"] is None]
    out = []
    for r in roots:
        stack = [(r, None, 0)]
        while stack:
            v, parent, depth = stack.pop()
            d = nodes[v]
            if d["leaf"]:
                continue
            out.append(dict(d, id=v, depth=depth, parent=parent))
            for k in d["kids"]:
                stack.append((k, d, depth + 1))
    return out


def interactions(sp, only_def, metric):
    groups = {}
    for s in sp:
        p = s["parent"]
        if p is None:
            continue
        if only_def and not (p["gain"] < s["gain"] and p["feature"] != s["feature"]):
            continue
        groups.setdefault((p["feature"], s["feature"]), []).append(s)
    return {k: aggregate(v, metric) for k, v in groups.items()}


def aggregate(group, metric):
    g = np.array([s["gain"] for s in group])
    c = np.array([s["cover"] for s in group])
    d = np.array([s["depth"] for s in group], dtype=float)
    return float({"mean_gain": g.mean(), "sum_gain": g.sum(), "mean_cover": c.mean(), "sum_cover": c.sum(),
                  "mean_depth": d.mean()}[metric])


def importance(sp, metric, features=None):
    feats = {}
    for s in sp:
        if features is None or s["feature"] in features:
            feats.setdefault(s["feature"], []).append(s)
    out = {}
    root_gain_total = sum(s["gain"] for v in feats.values() for s in v if s["depth"] == 0)
    for f, group in feats.items():
        roots = [s for s in group if s["depth"] == 0]
        if metric == "root_frequency":
            out[f] = float(len(roots))
        elif metric == "weighted_root_frequency":
            out[f] = len(roots) * sum(s["gain"] for s in roots) / root_gain_total if roots else 0.0
        elif metric == "mean_weighted_depth":
            g = sum(s["gain"] for s in group)
            out[f] = sum(s["gain"] * s["depth"] for s in group) / g if g > 0 else float("nan")
        else:
            out[f] = aggregate(group, metric)
    return out
