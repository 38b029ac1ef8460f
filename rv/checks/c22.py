"""C22: the interaction graph: nodes, sizes, edges, widths and labels follow the result tables."""
import numpy as np
from matplotlib import pyplot as plt

from rv import anyfit, artists
from rv.checks.c21 import describe, fit
from rv.core import Check


def options(case, f):
    vals = [v for *_, v in f.rows() if not np.isnan(v)]
    kw, arg = {}, {}
    if case.flip(0.65):
        # a threshold exactly at a value keeps that interaction; thresholds outside keep all / none
        arg["threshold"] = kw["threshold_relevant_interaction"] = float(case.choice(
            [case.choice(vals), case.choice(vals), max(vals), min(vals), min(vals) - 0.5, max(vals) + 0.5, 0.0, float(np.median(vals))]))
    if case.flip(0.3):
        arg["max_width"] = kw["max_edge_width"] = case.choice([1, 5, 40])
    if case.flip(0.3):
        arg["node_size"] = kw["node_size"] = case.choice([100, 3000])
    if case.flip(0.4):
        arg["n_labels"] = kw["n_highest_with_labels"] = case.choice([0, 1, 2, 100])
    if case.flip(0.25):
        arg["title"] = kw["title"] = "graph of it"
    return kw, arg


def graph(case):
    f = fit(case, mixed=True, p=case.choice([2, 3, 4, 5, 6, 8]))
    other = fit(case, [f.kind]) if case.flip(0.15) else None
    for k in range(3):          # several plots of one fitted method do not influence each other
        if other is not None and case.flip():
            other.m.plot("graph", **options(case, other)[0])
            plt.close("all")
        kw, arg = options(case, f)
        f.m.plot("graph", **kw)
        artists.judge_graph(case, plt.gcf().axes[0], f, **arg)
        plt.close("all")
        case.count("graphs_" + f.kind)
    describe(case, f, opts=sorted(kw))


CHECK = Check(
    "C22", "the interaction graph follows the result tables",
    {"graph": (graph, 420, 6000)},
    required=dict({"graphs_" + k: 30 for k in anyfit.KINDS}, edges=1500, visible_edges=500, node_sizes=800, edge_labels=150),
    rule="nodes, node sizes, edges, widths and labels of the drawn graph are read back for default and custom thresholds, widths, sizes and "
         "label counts; distinct by method, table size, features and options")
