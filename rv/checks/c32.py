"""C32: every documented option of a plot has its effect, and its documented default."""
import numpy as np
from matplotlib import colors as mcolors
from matplotlib import pyplot as plt
from matplotlib.collections import LineCollection, PathCollection, QuadMesh
from matplotlib.markers import MarkerStyle
from matplotlib.patches import FancyArrowPatch, Rectangle

from rv import anyfit, artists, gen
from rv.checks.c21 import describe, fit
from rv.common import FeatureInteractionMethodComparator, FriedmanHStatisticMethod, GreenwellMethod
from rv.core import Check

COLORS = ["red", "#123456", "gold", "navy"]
MAPS = ["viridis", "magma", "Blues", "coolwarm"]


def option(case, kw, name, values, default, p=0.4):
    """chooses an option or leaves it out; -> the value that has to be seen"""
    if case.flip(p):
        i = case.randint(0, len(values) - 1)
        kw[name] = values[i]
        case.count("options_given")
        return values[i]
    case.count("options_left_out")
    return default


def same(case, got, want, what, **kw):
    case.check(mcolors.same_color(got, want), what, got=mcolors.to_hex(got), expected=mcolors.to_hex(want), **kw)


def size(case, kw, default):
    want = option(case, kw, "figsize", [(4, 3), (10, 5.5), (3.5, 7)], default)
    return lambda: case.check(np.allclose(plt.gcf().get_size_inches(), want), "size of the figure", got=plt.gcf().get_size_inches().tolist(), expected=want)


def heatmap(case, f):
    kw = {}
    fig_ok = size(case, kw, (8, 6))
    imap = option(case, kw, "interaction_color_map", MAPS, "Purples_r" if f.ascending else "Purples")
    fmap = option(case, kw, "importance_color_map", MAPS, "Greens_r" if f.importance_ascending else "Greens")
    width = option(case, kw, "linewidths", [0, 2, 1.25], 0.5)
    line = option(case, kw, "linecolor", COLORS, "white")
    shrink = option(case, kw, "cbar_shrink", [0.3, 0.6, 1.0], None)
    f.m.plot("heatmap", **kw)
    fig_ok()
    fig = plt.gcf()
    ax = fig.axes[0]
    meshes = [c for c in ax.collections if isinstance(c, QuadMesh)]
    case.check(len(meshes) == 2, "importance and interactions are drawn", got=len(meshes))
    labels = {}
    for m in meshes:
        n = len(ax.get_yticklabels())
        visible = ~np.ma.getmaskarray(np.ma.masked_invalid(np.ma.asarray(m.get_array(), dtype=float).reshape(n, n)))
        diagonal = bool((visible & np.eye(n, dtype=bool)).any() and not (visible & ~np.eye(n, dtype=bool)).any())
        want = fmap if diagonal else imap
        case.check(m.get_cmap().name == want, "colour map", got=m.get_cmap().name, expected=want, diagonal=diagonal)
        case.check(np.allclose(m.get_linewidths(), width), "widths of the lines between cells", got=list(m.get_linewidths()), expected=width)
        for c in m.get_edgecolors():
            same(case, c, line, "colour of the lines between cells")
        bar = m.colorbar
        labels[diagonal] = bar.ax.get_ylabel()
        if shrink is not None:
            ratio = bar.ax.get_position(original=True).height / ax.get_position(original=True).height
            case.check(abs(ratio - shrink) < 1e-3, "size of the colour bars", got=ratio, expected=shrink)
    case.check(labels == {True: "Feature importance", False: f.m.method}, "names of the colour bars", got=labels)


def bars(case, f):
    kw = {}
    fig_ok = size(case, kw, (8, 6))
    color = option(case, kw, "color", COLORS, "mediumpurple")
    which = "bar_chart_ova" if getattr(f.m, "ova", None) is not None and case.flip() else "bar_chart"
    f.m.plot(which, **kw)
    fig_ok()
    ax = plt.gcf().axes[0]
    for r in ax.patches:
        if isinstance(r, Rectangle):
            same(case, r.get_facecolor(), color, "colour of the bars")
    case.check(ax.get_xlabel() == f.m.method, "bars are measured by the method", got=ax.get_xlabel(), expected=f.m.method)


def graph(case, f):
    kw = {}
    fig_ok = size(case, kw, (8, 6))
    edge = option(case, kw, "edge_color", COLORS, "rebeccapurple")
    node = option(case, kw, "node_color", COLORS, "green")
    fcolor = option(case, kw, "font_color", COLORS, "#3B1F2B")
    weight = option(case, kw, "font_weight", ["normal", "bold", "light"], "bold")
    fsize = option(case, kw, "font_size", [6, 14, 10], 10)
    if case.flip():
        kw["threshold_relevant_interaction"] = 100.0 if f.ascending else 0.0
    f.m.plot("graph", **kw)
    fig_ok()
    ax = plt.gcf().axes[0]
    nodes = [c for c in ax.collections if isinstance(c, PathCollection)][0]
    for c in nodes.get_facecolor():
        same(case, c, node, "colour of the nodes")
    for c in ax.collections:
        if isinstance(c, LineCollection):
            for q in c.get_edgecolor():
                same(case, q, edge, "colour of the edges")
    for p in ax.patches:
        if isinstance(p, FancyArrowPatch):
            same(case, p.get_edgecolor(), edge, "colour of the edges")
    where = np.asarray(nodes.get_offsets(), dtype=float)
    for t in ax.texts:
        same(case, t.get_color(), fcolor, "colour of the texts")
        case.check(t.get_weight() == weight, "weight of the texts", got=t.get_weight(), expected=weight, text=t.get_text())
        if t.get_text() in f.names and any(np.allclose(q, t.get_position(), atol=1e-6) for q in where):
            case.check(t.get_size() == fsize, "size of the names of features", got=t.get_size(), expected=fsize)


def conditional(case, f):
    kw = {}
    fig_ok = size(case, kw, (8, 6))
    cmap = option(case, kw, "cmap", ["Blues", "Greens", "viridis"], "Purples")
    color = option(case, kw, "color", COLORS, "black")
    f.m.plot("bar_chart_conditional", **kw)
    fig_ok()
    ax = plt.gcf().axes[0]
    pts = [c for c in ax.collections if isinstance(c, PathCollection)][-1]
    for c in pts.get_facecolor():
        same(case, c, color, "colour of the points")
    for c in ax.collections:
        if isinstance(c, LineCollection) and len(c.get_segments()):
            for q in c.get_color():
                same(case, q[:3], color, "colour of the sticks")
    occ = f.m.ovo["n_occurences"][:15]
    shades = plt.get_cmap(cmap)(np.linspace(0.5, 1, 200))[:, :3]
    for r in ax.patches:
        if isinstance(r, Rectangle) and np.isfinite(r.get_height()) and r.get_height() > 0:
            d = np.abs(shades - np.array(r.get_facecolor()[:3])).max(axis=1).min()
            hsv = mcolors.rgb_to_hsv(r.get_facecolor()[:3])
            near = np.abs(mcolors.rgb_to_hsv(shades)[:, 0] - hsv[0]).min() if hsv[1] > 0.05 else 0       # seaborn desaturates
            case.check(d < 0.25 and near < 0.06, "bars are coloured by the colour map", got=mcolors.to_hex(r.get_facecolor()), map=cmap, occurrences=list(occ))


def same_marker(collection, marker):
    m = MarkerStyle(marker)
    want = m.get_path().transformed(m.get_transform()).vertices
    return any(p.vertices.shape == want.shape and np.allclose(p.vertices, want, atol=1e-9) for p in collection.get_paths())


def lollipop(case, f):
    kw = {"max_trees": 1.0, "max_depth": case.choice([1, 2, 3])}
    fig_ok = size(case, kw, (8, 6))
    colors = option(case, kw, "colors", [["red", "blue", "gold", "black"], ["#102030", "#203040", "#304050", "#405060"]],
                    ["#e41a1c", "#377eb8", "#4daf4a", "#984ea3", "#ff7f00", "#ffff33"])
    shapes = option(case, kw, "shapes", [["s", "o", "v", "^"], ["x", "D", "o", "<"]], ["o", ",", "v", "^", "<", ">"])
    f.m.plot("lollipop", **kw)
    fig_ok()
    ax = plt.gcf().axes[0]
    sets = [c for c in ax.collections if isinstance(c, PathCollection)]
    case.check(len(sets) == kw["max_depth"] + 1, "one set of points per depth", got=len(sets))
    for i, c in enumerate(sets):
        if len(c.get_offsets()) == 0:
            continue
        for q in (c.get_facecolor() if len(c.get_facecolor()) else c.get_edgecolor()):
            same(case, q, colors[i], "colour of the splits of a depth", depth=i)
        case.check(same_marker(c, shapes[i]), "shape of the splits of a depth", depth=i, expected=shapes[i])
    for line in ax.lines:
        if len(line.get_xdata()):
            same(case, line.get_color(), colors[0], "colour of the line through the roots")
    case.check((ax.get_xlabel(), ax.get_ylabel()) == ("Tree number", "Gain"), "names of the axes", got=(ax.get_xlabel(), ax.get_ylabel()))


PARTS = {"heatmap": heatmap, "bars": bars, "graph": graph, "conditional": conditional, "lollipop": lollipop}


def options(case):
    kind = case.choice(anyfit.KINDS)
    f = fit(case, [kind], mixed=kind not in ("cmd", "split"), p=case.choice([2, 3, 4, 5]),
            options={"only_def": False} if kind == "split" else {"ova": case.flip()} if kind == "hstat" else None)
    kinds = ["heatmap", "bars", "graph"] + {"cmd": ["conditional"] * 2, "split": ["lollipop"] * 2}.get(kind, [])
    for _ in range(4):
        part = case.choice(kinds)
        PARTS[part](case, f)
        case.count("plots_" + part)
        if case.flip(0.85):
            plt.close("all")
    describe(case, f, part=part)


def profiles(case):
    """colour maps and sizes of profiles, zenplots and comparisons"""
    data = gen.make_data(case, n=case.randint(5, 9), p=case.randint(3, 4), kinds=["grid"], max_uniques=4)
    setup = gen.make_setup(case, data)
    m = case.choice([FriedmanHStatisticMethod, GreenwellMethod])()
    m.fit(setup.model, data.X, **setup.kwargs())
    for _ in range(3):
        kw = {}
        what = case.choice(["single", "pair", "pair", "zenplot", "comparison"])
        if what == "comparison":
            fig_ok = size(case, kw, (8, 6))
            FeatureInteractionMethodComparator().comparison_plot(m, m, **kw)
            fig_ok()
        else:
            fig_ok = size(case, kw, (14, 12) if what == "zenplot" else (6, 4))
            cmap = option(case, kw, "cmap", MAPS, "RdYlBu_r")
            kind = option(case, kw, "kind", ["colormesh"], "colormesh")
            if what == "zenplot":
                m.plot_zenplot(**kw)
            elif what == "single":
                m.plot_profile(data.cols[0], **kw)
            else:
                m.plot_profile(*[str(c) for c in case.rng.permutation(data.cols)[:2]], **kw)
            fig_ok()
            if what != "single":
                meshes = [c for ax in plt.gcf().axes for c in ax.collections if isinstance(c, QuadMesh) and c.colorbar is not None or
                          isinstance(c, QuadMesh) and ax.get_label() != "<colorbar>"]
                case.check(meshes and kind == "colormesh", "the partial dependence is shown as colours")
                for c in meshes:
                    case.check(c.get_cmap().name == cmap, "colour map", got=c.get_cmap().name, expected=cmap, what=what)
        case.count("plots_" + what)
        plt.close("all")
    case.sign(type(m).__name__, data.n, what, str(kw))


CHECK = Check(
    "C32", "options of plots have their effect",
    {"options": (options, 130, 2500), "profiles": (profiles, 40, 900)},
    required=dict({"plots_" + p: 25 for p in PARTS}, options_given=500, options_left_out=500, plots_pair=20, plots_zenplot=10, plots_comparison=10),
    rule="every documented option of every plot is given or left out at random and read back from the artists; distinct by method, table and kind of plot")
