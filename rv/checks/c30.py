"""C30: every plot keeps to its own figure."""
import matplotlib
from matplotlib import pyplot as plt

from rv import anyfit, artists
from rv.common import FeatureInteractionMethodComparator
from rv.core import Check, Skip

PLOTS = {"hstat": ["heatmap", "bar_chart", "graph", "bar_chart_ova", "summary"], "greenwell": ["heatmap", "bar_chart", "graph", "summary"],
         "sejong": ["heatmap", "bar_chart", "graph", "summary"], "cmd": ["heatmap", "bar_chart", "graph", "bar_chart_conditional", "summary"],
         "split": ["heatmap", "bar_chart", "graph", "lollipop", "summary"]}
DEFAULT = (8, 6)


def own_figure(case):
    """a figure of the user's own"""
    fig, ax = plt.subplots(1, case.choice([1, 2]), squeeze=False, figsize=(5, 3))
    for a in ax.ravel():
        a.plot([0, 1, 2], case.rng.normal(size=3), label="mine")
        a.bar([0, 1], case.rng.random(2))
        a.set_title("mine")
        a.set_xlabel("x of mine")
    fig.suptitle("all mine")
    return fig


def one_plot(case, f, others):
    """-> (what, options, call, size of the figure or None)"""
    size = case.choice([None, (5, 4), (9, 3.5), (7, 7)])
    kw = {} if size is None else {"figsize": size}
    kind = case.choice(["plot", "plot", "plot"] + (["profile", "pair", "zenplot"] if f.kind in ("hstat", "greenwell") else [])
                       + (["comparison"] if others else []))
    if kind == "plot":
        v = case.choice(PLOTS[f.kind])
        extra = case.choice([{}, {"title": "mine too"}])
        return v, lambda: f.m.plot(v, **kw, **extra), (size or DEFAULT) if v != "summary" else None
    if kind == "profile":
        a = case.choice(list(f.features))
        return kind, lambda: f.m.plot_profile(a, **kw), size or (6, 4)
    if kind == "pair":
        a, b = [str(c) for c in case.rng.permutation(f.features)[:2]]
        return kind, lambda: f.m.plot_profile(a, b, **kw), size or (6, 4)
    if kind == "zenplot":
        return kind, lambda: f.m.plot_zenplot(**kw), size
    g = case.choice(others)
    return kind, lambda: FeatureInteractionMethodComparator().comparison_plot(f.m, g.m, **kw), size or DEFAULT


def sequence(case):
    a = anyfit.fit_any(case, options={"ova": True, "only_def": False})
    b = anyfit.fit_kind(case, case.choice(["hstat", "greenwell", "sejong"]), X=a.X, names=None, options={"ova": True, "features": list(a.features)}) \
        if a.kind in ("cmd", "split") or a.extra["data"].types and all(t == "num" for t in a.extra["data"].types.values()) else None
    fits = [f for f in (a, b) if f is not None]
    if any(not anyfit.plottable(f.m) or len(f.features) < 2 for f in fits):
        raise Skip("nothing to plot")
    comparable = {}
    for f in fits:
        comparable[id(f)] = [g for g in fits if g is not f and f.kind != "split" and g.kind != "split"]
    figures = []
    if case.flip(0.7):
        figures.append(own_figure(case))
    if case.flip(0.1):               # many open figures
        figures += [plt.figure() for _ in range(case.choice([12, 24]))]
    done = []
    for _ in range(case.randint(2, 4)):
        f = case.choice(fits)
        if not done or case.flip(0.7):           # otherwise the same plot once more
            what, call, size = one_plot(case, f, comparable[id(f)])
        if figures and case.flip(0.4):
            plt.figure(figures[case.randint(0, len(figures) - 1)].number)     # any figure may be the current one
        marks = [repr(artists.fingerprint(g)) for g in figures]
        sizes = [tuple(g.get_size_inches()) for g in figures]
        params = dict(matplotlib.rcParams)
        nums = plt.get_fignums()
        call()
        case.check(dict(matplotlib.rcParams) == params, "settings of matplotlib stay as they were", what=what,
                   changed=[k for k in params if params[k] != matplotlib.rcParams[k]])
        new = [k for k in plt.get_fignums() if k not in nums]
        case.check(len(new) == 1 and set(nums) <= set(plt.get_fignums()), "a plot opens one figure and closes none", what=what, new=len(new))
        for g, mark, s in zip(figures, marks, sizes):
            case.check(repr(artists.fingerprint(g)) == mark and tuple(g.get_size_inches()) == s, "earlier figures stay as they were", what=what)
        fig = plt.figure(new[0])
        case.check(any(ax.has_data() or ax.texts for ax in fig.axes), "the new figure shows something", what=what)
        if size is not None:
            case.close(fig.get_size_inches(), size, "size of the figure", what=what)
        figures.append(fig)
        done.append((f.kind, what))
        case.count("plots")
        case.count("earlier_figures", len(marks))
    plt.close("all")
    case.note(plots=done)
    case.sign(tuple(done))


CHECK = Check(
    "C30", "every plot keeps to its own figure",
    {"sequence": (sequence, 100, 2000)},
    required={"plots": 200, "earlier_figures": 200},
    rule="sequences of plots of all kinds with other figures open (the user's own and earlier ones, any of them current): matplotlib settings, open figures "
         "and everything drawn on them before and after; distinct by the sequence of plots")
