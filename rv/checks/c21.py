"""C21: heatmaps, bar charts, conditional bar charts, lollipops and summaries show exactly the result tables."""
import numpy as np
from matplotlib import pyplot as plt
from matplotlib.collections import PathCollection
from matplotlib.patches import Rectangle

from rv import anyfit, artists, boosters
from rv.core import Check, Skip, Violation


def fit(case, kinds=anyfit.KINDS, **kw):
    f = anyfit.fit_any(case, kinds, **kw)
    pairs = {frozenset((a, b)) for a, b, v in f.rows() if a != b and not np.isnan(v)}
    if not pairs:
        raise Skip("no pair of two features")
    tables = [f.m.ovo[f.m.method]] + ([f.m.ova[f.m.method]] if getattr(f.m, "ova", None) is not None else [])
    if any(np.isinf(np.asarray(t, dtype=float)).any() for t in tables):
        raise Skip("infinite H-statistic: the joint effect is exactly flat where observed, the single ones are not")
    return f


def describe(case, f, **kw):
    case.note(kind=f.kind, features=f.features, rows=f.rows()[:8], **kw)
    case.sign(f.kind, len(f.m.ovo), tuple(f.features), f.extra.get("metric"), *[f"{k}={v}" for k, v in kw.items()])


def heatmap(case, f=None):
    f = f or fit(case, mixed=True, p=case.choice([2, 3, 4, 5, 6, 9]))
    kw, digits, title = {}, 3, "Interaction matrix"
    if case.flip(0.3):
        digits = case.choice([1, 2, 5])
        kw["annot_fmt"] = f".{digits}f"
    if case.flip(0.3):
        title = kw["title"] = case.choice(["My title", "", "ą: β"])
    custom = case.flip(0.15)
    if custom:
        kw.update(interaction_color_map="viridis", importance_color_map="magma")
    if case.flip(0.3) or title != "Interaction matrix":
        f.m.plot("heatmap", **kw)
    else:
        f.m.plot(**kw)
    artists.judge_heatmap(case, plt.gcf().axes[0], f, title, digits, not custom)
    case.count("heatmaps")
    describe(case, f, digits=digits)
    return f


def ovo_rows(f):
    return [(f"{a}:{b}", v) for a, b, v in f.rows()]


def bars(case, f=None):
    f = f or fit(case, mixed=True)
    title, k, color, kw = "Pair interactions", 10, "mediumpurple", {}
    if case.flip(0.5):
        k = kw["top_k"] = case.choice([1, 2, 3, 5, 100, len(f.m.ovo)])
    if case.flip(0.3):
        title = kw["title"] = "bars"
    if case.flip(0.3):
        color = kw["color"] = case.choice(["red", "#123456"])
    f.m.plot("bar_chart", **kw)
    artists.judge_bars(case, plt.gcf().axes[0], ovo_rows(f), k, title, color)
    case.count("bar_charts")
    describe(case, f, top_k=k)
    return f


def ova_bars(case, f=None):
    f = f or fit(case, ["hstat"], mixed=True, options={"ova": True}, p=case.choice([2, 3, 4, 5, 6, 12, 13]))
    title, k, kw, color = "Interaction with all other features", 10, {}, "mediumpurple"
    if case.flip(0.3):
        color = kw["color"] = case.choice(["red", "#123456"])
    if case.flip(0.5):
        k = kw["top_k"] = case.choice([1, 2, 3, 100])
    if case.flip(0.3):
        title = kw["title"] = "one versus all"
    f.m.plot("bar_chart_ova", **kw)
    t = f.m.ova
    artists.judge_bars(case, plt.gcf().axes[0], list(zip(t["Feature"], map(float, t[f.m.method]))), k, title, color)
    case.count("ova_charts")
    describe(case, f, top_k=k)
    return f


def conditional(case, f=None):
    f = f or fit(case, ["cmd"], p=case.choice([2, 3, 4, 5, 6, 8]))
    title, k, kw = "Random forest model summary", 15, {}
    if case.flip(0.5):
        k = kw["top_k"] = case.choice([1, 2, 5, 100])
    if case.flip(0.3):
        title = kw["title"] = "conditional"
    rows = f.rows()[:k]
    f.m.plot("bar_chart_conditional", **kw)
    ax = plt.gcf().axes[0]
    case.check(ax.get_title() == title, "title", got=ax.get_title())
    imp = f.importance()
    labels = [t.get_text() for t in ax.get_xticklabels()]
    case.check(labels == [f"{a}:{b}" for a, b, _ in rows], "the first pairs of the table, in its order", got=labels, expected=rows)
    heights, shades = {}, {}
    for r in ax.patches:
        if isinstance(r, Rectangle) and np.isfinite(r.get_height()):
            heights.setdefault(int(round(r.get_x() + r.get_width() / 2)), []).append(r.get_height())
            shades[int(round(r.get_x() + r.get_width() / 2))] = artists.luminance(r.get_facecolor())
    pts = [c for c in ax.collections if isinstance(c, PathCollection)][-1]
    pts = {int(round(x)): y for x, y in np.asarray(pts.get_offsets(), dtype=float)}
    for i, (a, b, v) in enumerate(rows):
        h = [q for q in heights.get(i, [])]
        if np.isnan(v):
            case.check(not any(h), "no bar for a pair without a value", pair=(a, b), got=h)
            case.count("bars_without_value")
            continue
        case.check(h and all(abs(q - v) <= 1e-9 * max(1, abs(v)) for q in h), "bar heights are the conditional depths", pair=(a, b), got=h, expected=v)
        case.check(i in pts and abs(pts[i] - imp[b]) <= 1e-9 * max(1, abs(imp[b])), "points are the unconditional depths of the second feature",
                   pair=(a, b), got=pts.get(i), expected=imp[b])
        case.count("conditional_bars")
    occ = [int(v) for v in f.m.ovo["n_occurences"][:k]]
    for i in range(len(rows) - 1):
        if i not in shades or i + 1 not in shades:
            continue
        d = shades[i + 1] - shades[i]
        case.check(abs(d) <= 1e-9 if occ[i] == occ[i + 1] else d > 1e-9, "darker bars for pairs occurring in more trees", occurrences=occ,
                   shades=shades)
    describe(case, f, top_k=k)
    return f


def lollipop(case, f=None):
    f = f or fit(case, ["split"], options={"only_def": False})
    sp = boosters.splits(f.extra["booster"], f.extra["package"])
    frac, depth, kw, title, labels = 0.2, 1, {}, "Lollipop boosting model summary", True
    n_trees = f.extra["booster"].num_boosted_rounds() if False else 1 + max(s["tree"] for s in all_nodes(f))
    if case.flip(0.7):
        frac = kw["max_trees"] = case.choice([0.1, 0.34, 0.5, 1.0, 1])
    if case.flip(0.6):
        depth = kw["max_depth"] = case.choice([1, 2, 3, 5])
    if case.flip(0.3):
        title = kw["title"] = "lollipop"
    if case.flip(0.2):
        labels = kw["labels"] = False
    thr = 0.1
    if case.flip(0.3):
        thr = kw["label_threshold"] = case.choice([0.0, 0.5, 1.0])
    scale = "linear"
    if case.flip(0.15):
        scale = kw["scale"] = case.choice(["log", "log", "symlog"])
    f.m.plot("lollipop", **kw)
    ax = plt.gcf().axes[0]
    case.check(ax.get_title() == title, "title", got=ax.get_title())
    chosen = [s for s in sp if s["tree"] < frac * n_trees]
    got = []
    for c in ax.collections:
        if isinstance(c, PathCollection):
            got.append(sorted((int(round(x)), round(y, 4)) for x, y in np.ma.filled(np.ma.asarray(c.get_offsets(), dtype=float), np.nan).reshape(-1, 2)
                              if np.isfinite(y)))
    got = [q for q in got if q]
    exp = []
    for d in range(0, depth + 1):
        e = sorted((s["tree"] + 1, round(s["gain"], 4)) for s in chosen if s["depth"] == d)
        if e:
            exp.append(e)

    def close(a, b):
        return len(a) == len(b) and all(x == u and abs(y - v) <= 1e-6 * max(1, abs(v)) + 1e-4 for (x, y), (u, v) in zip(a, b))
    case.check(len(got) == len(exp) and all(close(a, b) for a, b in zip(got, exp)), "one point per split of the first trees, by depth",
               got=got, expected=exp, max_trees=frac, trees=n_trees)
    case.count("lollipop_points", sum(len(e) for e in exp))
    case.check(ax.get_xscale() == scale, "scale of the axis of trees", got=ax.get_xscale())
    shades = [tuple(c.get_facecolor()[0]) for c in ax.collections if isinstance(c, PathCollection) and len(c.get_facecolor()) and len(c.get_offsets())]
    case.check(len(set(shades)) == len(shades), "depths have their own colours", got=shades)
    ticks = {round(float(x), 6): t.get_text() for x, t in zip(ax.get_xticks(), ax.get_xticklabels())}
    for s in chosen:
        if s["depth"] == 0:
            case.check(ticks.get(float(s["tree"] + 1)) == str(s["tree"]), "trees are numbered on the axis", tree=s["tree"], ticks=ticks)
    texts = [(t.get_text(), int(round(t.xy[0])), t.xy[1]) for t in ax.texts if hasattr(t, "xy")]
    if not labels:
        case.check(not texts, "no labels if not wanted", got=texts)
    else:
        want = []
        for s in chosen:
            p = s["parent"]
            if p is not None and s["depth"] <= depth and p["gain"] < s["gain"] and p["feature"] != s["feature"]:
                want.append((f"{p['feature']}:{s['feature']}", s["tree"] + 1, s["gain"]))
        roots = [s for s in chosen if s["depth"] == 0]
        best = max((s["gain"] for s in roots), default=0)
        want += [(s["feature"], s["tree"] + 1, s["gain"]) for s in roots if s["gain"] >= thr * best]
        case.check(sorted(q[:2] for q in texts) == sorted(q[:2] for q in want), "interactions and important roots are named",
                   got=sorted(texts), expected=sorted(want))
        for t in ax.texts:
            if hasattr(t, "xy"):
                case.check(abs(t.get_position()[0] - t.xy[0]) < 1e-6, "labels stand at their trees", label=t.get_text(), at=t.get_position(), split=t.xy)
        for (_, _, g1), (_, _, g2) in zip(sorted(texts), sorted(want)):
            if abs(g1 - g2) > 1e-6 * max(1, abs(g2)):
                raise Violation("labels sit on their splits", {"got": sorted(texts), "expected": sorted(want)})
        case.count("lollipop_labels", len(texts))
    describe(case, f, frac=frac, depth=depth, trees=n_trees)
    return f


def all_nodes(f):
    df = f.extra["booster"].trees_to_dataframe()
    col = "Tree" if "Tree" in df else "tree_index"
    return [{"tree": int(t)} for t in df[col]]


def by_title(case, fig, title):
    hit = [a for a in fig.axes if a.get_title() == title]
    case.check(len(hit) == 1, "the summary has this part", part=title, parts=[a.get_title() for a in fig.axes])
    return hit[0]


def judge_layout(case, fig, titles):
    """the parts of a summary do not cover each other"""
    boxes = [(t, by_title(case, fig, t).get_position(original=True)) for t in titles]
    for i, (t, a) in enumerate(boxes):
        case.check(a.width > 0.05 and a.height > 0.05, "every part of the summary is visible", part=t)
        for u, b in boxes[i + 1:]:
            w, h = min(a.x1, b.x1) - max(a.x0, b.x0), min(a.y1, b.y1) - max(a.y0, b.y0)
            case.check(w <= 1e-3 or h <= 1e-3, "parts of the summary do not cover each other", parts=(t, u))


def summary(case, f=None):
    f = f or fit(case, mixed=True)
    ova = getattr(f.m, "ova", None)
    kw, title, k, digits, thr = {}, f"{f.m.method} summary", 10, 3, None
    names = {"heatmap": "Interaction matrix", "graph": "Interaction graph", "bar_chart_ovo": "Pair interactions",
             "bar_chart_ova": "Interaction with all other features"}
    k2, color, color2, labels, size, custom = 10, "mediumpurple", "mediumpurple", 5, 1800, False
    if case.flip(0.3):
        title = kw["title"] = case.choice(["All of it", ""])
    if case.flip(0.4):
        o = kw["bar_chart_ovo"] = {}
        if case.flip():
            k = o["top_k"] = case.choice([1, 3])
        if case.flip():
            color = o["color"] = case.choice(["red", "#123456"])
    if case.flip(0.4):
        o = kw["bar_chart_ova"] = {}
        if case.flip(0.7):
            k2 = o["top_k"] = case.choice([1, 2])
        if case.flip():
            color2 = o["color"] = case.choice(["blue", "#654321"])
    if case.flip(0.4):
        o = kw["heatmap"] = {}
        if case.flip(0.7):
            digits, o["annot_fmt"] = 2, ".2f"
        if case.flip(0.3):
            custom = True
            o.update(interaction_color_map="viridis", importance_color_map="magma")
    if case.flip(0.4):
        o = kw["graph"] = {}
        if case.flip(0.7):
            thr = o["threshold_relevant_interaction"] = case.choice([0.0, 0.3, 1.0])
        if case.flip(0.4):
            labels = o["n_highest_with_labels"] = case.choice([0, 1, 2])
        if case.flip(0.4):
            size = o["node_size"] = 700
    for part in kw:
        if part in names and case.flip(0.2):
            names[part] = kw[part]["title"] = f"own title of the {part}"
    f.m.plot("summary", figsize=(8, 6), **kw)
    fig = plt.gcf()
    case.check(fig._suptitle is not None and fig._suptitle.get_text() == title, "title of the summary",
               got=None if fig._suptitle is None else fig._suptitle.get_text())
    part = {q: (lambda q=q: by_title(case, fig, names[q])) for q in names}
    artists.judge_heatmap(case, part["heatmap"](), f, names["heatmap"], digits, not custom)
    artists.judge_bars(case, part["bar_chart_ovo"](), ovo_rows(f), k, names["bar_chart_ovo"], color)
    artists.judge_graph(case, part["graph"](), f, names["graph"], threshold=thr, node_size=size, n_labels=labels)
    shown = any(a.get_title() == names["bar_chart_ova"] for a in fig.axes)
    case.check(shown == (ova is not None), "one versus all results are part of the summary if calculated")
    if ova is not None:
        artists.judge_bars(case, part["bar_chart_ova"](),
                           list(zip(ova["Feature"], map(float, ova[f.m.method]))), k2, names["bar_chart_ova"], color2)
        case.count("summaries_with_ova")
    judge_layout(case, fig, [names[q] for q in names if q != "bar_chart_ova" or ova is not None])
    case.count("summaries")
    describe(case, f, keys=sorted(kw))
    return f


def sequence(case):
    """several plots of two fitted methods in any order: options of one plot do not leak into another"""
    kind = case.choice(anyfit.KINDS)
    objects = [fit(case, [kind], mixed=kind not in ("cmd", "split"), options={"ova": True}),
               fit(case, [kind, kind, case.choice(anyfit.KINDS)], options={"ova": True})]
    for _ in range(case.randint(3, 6)):
        f = case.choice(objects)
        kinds = [heatmap, bars, bars]
        if f.kind == "hstat":
            kinds.append(ova_bars)
        if f.kind == "cmd":
            kinds.append(conditional)
        if f.kind == "split":
            kinds.append(lollipop)
        if case.flip(0.15):
            kinds = [summary]
        case.choice(kinds)(case, f)
        if case.flip(0.9):
            plt.close("all")
        else:
            plt.figure()      # the user's own figure in between
    case.count("sequences")
    case.sign("sequence", *[f.kind for f in objects], *[len(f.m.ovo) for f in objects])


def twice(part):
    def run(case):
        f = part(case)
        if case.flip(0.35):        # options of one plot do not leak into the next one
            plt.close("all")
            part(case, f)
            case.count("plotted_again")
    return run


CHECK = Check(
    "C21", "plots show exactly the result tables",
    {"heatmap": (twice(heatmap), 130, 2200), "bars": (twice(bars), 110, 2000), "ova_bars": (twice(ova_bars), 40, 600),
     "conditional": (twice(conditional), 40, 700), "lollipop": (twice(lollipop), 60, 1000), "summary": (twice(summary), 80, 1200), "sequence": (sequence, 60, 900)},
    required={"heatmaps": 60, "cells": 800, "color_scales": 60, "bar_charts": 60, "bars": 300, "ova_charts": 20, "conditional_bars": 100,
              "lollipop_points": 150, "lollipop_labels": 60, "summaries": 40, "summaries_with_ova": 5, "bars_without_value": 3, "sequences": 20, "edges": 60},
    rule="every artist (texts, tick labels, bars, points, colors) of every kind of plot is read back and compared with the result table; "
         "distinct by method, table size, features and plot options")
