"""Reading plots back from their matplotlib artists, and judging them against the result tables."""
import numpy as np
from matplotlib import colors as mcolors
from matplotlib.collections import LineCollection, PathCollection, QuadMesh
from matplotlib.patches import FancyArrowPatch, Rectangle

from .core import Violation


def luminance(rgba):
    r, g, b = rgba[:3]
    return 0.299 * r + 0.587 * g + 0.114 * b


def shown_equal(text, value, digits=3):
    """text is the value rounded to so many digits"""
    return abs(float(text.replace("−", "-")) - value) <= 0.5000001 * 10 ** -digits + 1e-9 * abs(value)


# -------------------------------------------------------------------------------------------- heatmap
def heatmap_cells(case, ax):
    """-> features, {cell: colored value}, {cell: annotation}

    (the installed seaborn annotates only the first row of a matrix under the installed matplotlib, so the value of a
    cell is read from the colored mesh, and annotations are compared where they exist)"""
    rows = [t.get_text() for t in ax.get_yticklabels()]
    cols = [t.get_text() for t in ax.get_xticklabels()]
    case.check(rows == cols and len(set(rows)) == len(rows), "rows and columns of the heatmap list the features in the same order", rows=rows, cols=cols)
    n = len(rows)
    values, texts = {}, {}
    for m in ax.collections:
        if isinstance(m, QuadMesh):
            arr = np.ma.masked_invalid(np.ma.asarray(m.get_array(), dtype=float).reshape(n, n))
            for i, j in np.argwhere(~np.ma.getmaskarray(arr)):
                key = rows[i], cols[j]
                case.check(key not in values, "one value per cell", cell=key)
                values[key] = float(arr[i, j])
    for t in ax.texts:
        if t.get_text() in ("--", "nan"):      # masked cells (this seaborn writes "--" into them)
            continue
        x, y = t.get_position()
        key = rows[int(np.floor(y))], cols[int(np.floor(x))]
        case.check(key not in texts, "one annotation per cell", cell=key, texts=[texts.get(key), t.get_text()])
        texts[key] = t.get_text()
    return rows, values, texts


def judge_heatmap(case, ax, f, title="Interaction matrix", digits=3, importance_maps=True):
    case.check(ax.get_title() == title, "title of the heatmap", got=ax.get_title())
    names, cells, texts = heatmap_cells(case, ax)
    rows, imp = f.rows(), f.importance()
    in_pairs = {a for a, b, v in rows if not np.isnan(v)} | {b for a, b, v in rows if not np.isnan(v)}
    exp = {}
    for a, b, v in rows:
        if a == b or np.isnan(v):
            continue
        exp[a, b] = {v}
    if not f.directed:          # a cell shows its own direction if the table has it, otherwise the other one
        exp.update({(b, a): v for (a, b), v in exp.items() if (b, a) not in exp})
    for a in in_pairs:
        if a in imp and not np.isnan(imp[a]):
            exp[a, a] = {imp[a]}
    case.check(in_pairs <= set(names), "every feature of an interaction is in the heatmap", features=names, expected=sorted(in_pairs))
    for key, vals in exp.items():
        case.count("cells")
        case.check(key in cells, "every value is shown", missing=key, values=sorted(vals))
        if not any(abs(cells[key] - v) <= 1e-9 * max(1, abs(v)) for v in vals):
            raise Violation("cells show the values of their pair, the diagonal shows the importance",
                            {"cell": key, "shown": cells[key], "expected": sorted(vals)})
    for key, t in texts.items():
        case.check(key in cells and shown_equal(t, cells[key], digits), "annotations are the values of their cells", cell=key, text=t, value=cells.get(key))
        case.count("annotations")
    case.check(any(k[0] == names[0] for k in texts) or not any(k[0] == names[0] for k in cells), "values are annotated")
    extra = set(cells) - set(exp)
    extra = {k for k in extra if not (k[0] == k[1])}
    case.check(not extra, "no values are made up", extra=sorted(extra))
    if importance_maps:
        meshes = [c for c in ax.collections if isinstance(c, QuadMesh)]
        order = [(imp[a], a) for a in in_pairs if a in imp and not np.isnan(imp[a])]
        inter = [v for a, b, v in rows if a != b and not np.isnan(v)]
        judge_colors(case, meshes, [v for v, _ in order], f.importance_ascending, len(names), True)
        judge_colors(case, meshes, inter, f.ascending, len(names), False)
    return names


def judge_colors(case, meshes, values, ascending, size, diagonal):
    """the strongest value gets the darkest color of its own mesh"""
    if not values or max(values) - min(values) <= 1e-9 * max(1, abs(max(values))):
        return
    for m in meshes:
        arr = np.ma.masked_invalid(np.ma.asarray(m.get_array()).reshape(size, size))
        mask = np.ma.getmaskarray(arr)
        visible = ~mask
        eye = np.eye(size, dtype=bool)
        if diagonal != bool((visible & eye).any() and not (visible & ~eye).any()):
            continue
        lo, hi = m.to_rgba(min(values)), m.to_rgba(max(values))
        dark, light = (lo, hi) if ascending else (hi, lo)
        case.check(luminance(dark) < luminance(light), "the strongest value has the darkest color", diagonal=diagonal, ascending=ascending)
        case.count("color_scales")


# -------------------------------------------------------------------------------------------- bars
def bars_top_down(ax):
    """[(label, length, facecolor)] in the order on the screen, top first"""
    labels = {round(float(p), 6): t.get_text() for p, t in zip(ax.get_yticks(), ax.get_yticklabels())}
    out = []
    for r in ax.patches:
        if not isinstance(r, Rectangle):
            continue
        y = r.get_y() + r.get_height() / 2
        out.append((ax.transData.transform((0, y))[1], labels.get(round(float(y), 6)), r.get_width(), r.get_facecolor()))
    out.sort(key=lambda q: -q[0])
    return [(a, w, c) for _, a, w, c in out]


def judge_bars(case, ax, rows, top_k, title, color=None):
    """rows: [(label, value)] in the order of the table"""
    case.check(ax.get_title() == title, "title of the bar chart", got=ax.get_title(), expected=title)
    got = bars_top_down(ax)
    exp = rows[:top_k]
    case.check(len(got) == len(exp), "number of bars", got=len(got), expected=len(exp))
    for (la, w, c), (lb, v) in zip(got, exp):
        case.count("bars")
        if np.isnan(v):
            v = 0.0 if w == 0 else float("nan")
        case.check(la == lb and (abs(w - v) <= 1e-9 * max(1, abs(v)) or (np.isnan(v) and np.isnan(w))),
                   "bars are the strongest pairs of the table, strongest on top", got=(la, w), expected=(lb, v),
                   shown=[q[:2] for q in got], table=exp)
        if color is not None:
            case.check(mcolors.same_color(c, color), "requested color")


# -------------------------------------------------------------------------------------------- graph
def read_graph(case, ax, features):
    """-> nodes {name: size}, edges [(a, b, width)], labels [(text, position)]"""
    nodes_c = [c for c in ax.collections if isinstance(c, PathCollection)]
    case.check(len(nodes_c) == 1, "one set of nodes", got=len(nodes_c))
    off = np.asarray(nodes_c[0].get_offsets(), dtype=float)
    sizes = np.asarray(nodes_c[0].get_sizes(), dtype=float)
    if len(sizes) == 1:
        sizes = np.repeat(sizes, len(off))
    texts = [(t.get_text(), np.array(t.get_position(), dtype=float)) for t in ax.texts]
    names, rest = {}, []
    for text, p in texts:
        hit = [i for i in range(len(off)) if np.allclose(off[i], p, atol=1e-6)]
        if hit and text in features and hit[0] not in names:
            names[hit[0]] = text
        else:
            rest.append((text, p))
    case.check(len(names) == len(off) and len(set(names.values())) == len(off), "every node is labelled with its feature",
               nodes=len(off), labels=[t for t, _ in texts])
    nodes = {names[i]: sizes[i] for i in range(len(off))}
    where = {names[i]: off[i] for i in range(len(off))}

    def at(p):
        return next(a for a in where if np.allclose(where[a], p, atol=1e-6))
    edges = []
    for c in ax.collections:
        if isinstance(c, LineCollection):
            segs, w = c.get_segments(), np.asarray(c.get_linewidths(), dtype=float)
            for i, s in enumerate(segs):
                edges.append((at(s[0]), at(s[-1]), float(w[i % len(w)])))
    for p in ax.patches:
        if isinstance(p, FancyArrowPatch):
            a, b = p._posA_posB
            if np.allclose(a, b):
                continue
            edges.append((at(a), at(b), float(p.get_linewidth())))
    return nodes, where, edges, rest


def judge_graph(case, ax, f, title="Interaction graph", threshold=None, max_width=None, node_size=1800, n_labels=5):
    defaults = {"hstat": 0.05, "greenwell": 0.05, "sejong": 0.1, "split": 0.1, "cmd": 0.6}
    threshold = defaults[f.kind] if threshold is None else threshold
    max_width = (3 if f.kind == "cmd" else 20) if max_width is None else max_width
    case.check(ax.get_title() == title, "title of the graph", got=ax.get_title())
    rows, imp = f.rows(), f.importance()
    features = set(imp) | {a for a, b, _ in rows} | {b for a, b, _ in rows}
    nodes, where, edges, rest = read_graph(case, ax, features)
    case.check(set(imp) <= set(nodes), "every feature is a node", nodes=sorted(nodes), features=sorted(imp))
    top = max(imp.values())
    if top > 0 and min(imp.values()) >= 0:
        for a, v in imp.items():
            case.check(abs(nodes[a] - node_size * v / top) <= 1e-6 * node_size, "node sizes are proportional to importance",
                       feature=a, size=nodes[a], expected=node_size * v / top)
            case.count("node_sizes")
    ok = lambda v: not np.isnan(v) and (v <= threshold if f.ascending else v >= threshold)      # noqa
    relevant = [v for *_, v in rows if ok(v)]
    exp = {}
    for a, b, v in rows:
        if a != b:
            exp.setdefault((a, b) if f.directed else frozenset((a, b)), []).append(v)
    got = {}
    for a, b, w in edges:
        if a == b:
            continue
        k = (a, b) if f.directed else frozenset((a, b))
        case.check(k in exp, "edges belong to pairs of the table", edge=(a, b))
        case.check(k not in got, "one edge per pair", edge=(a, b))
        got[k] = w
    M = max(relevant) if relevant else 0.0
    for k, vals in exp.items():
        w = got.get(k, 0.0)
        options = []
        for v in vals:
            if not ok(v):
                options.append(0.0)
            elif f.ascending:
                options.append((M + 1 - v) / (M + 1 - min(relevant)) * max_width)
            else:
                options.append(v / M * max_width if M > 0 else 0.0)
        case.count("edges")
        case.count("visible_edges", int(w > 0))
        case.check(any(abs(w - e) <= 1e-6 * max_width for e in options),
                   "edge widths follow the strength, irrelevant interactions have no edge", edge=sorted(k), width=w, expected=options,
                   values=vals, threshold=threshold)
    texts = sorted(t for t, _ in rest)
    if f.ascending:
        case.check(not texts, "no labels for methods where smaller is stronger", texts=texts)
    else:
        strong = sorted((v for v in relevant if v > 0), reverse=True)[:n_labels]
        shown = sorted(float(t) for t in texts)
        case.check(len(shown) == len(strong) and all(abs(x - y) <= 0.005001 + 1e-9 * abs(y) for x, y in zip(shown, sorted(strong))),
                   "labels are the strongest relevant values", shown=shown, expected=sorted(strong))
        for t, p in rest:
            near = [v for a, b, v in rows if np.allclose((where[a] + where[b]) / 2, p, atol=1e-4) and abs(v - float(t)) <= 0.005001 + 1e-9 * abs(v)]
            case.check(near, "a label sits on the edge it belongs to", label=t)
            case.count("edge_labels")


# ---------------------------------------------------------------------------------------- fingerprints
def fingerprint(fig):
    """what a figure shows, in a comparable form"""
    out = [tuple(t.get_text() for t in fig.texts), fig._suptitle.get_text() if fig._suptitle else None]
    for ax in fig.axes:
        one = [ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), tuple(np.round(ax.get_xlim(), 9)), tuple(np.round(ax.get_ylim(), 9)),
               tuple(t.get_text() for t in ax.get_xticklabels()), tuple(t.get_text() for t in ax.get_yticklabels()),
               tuple((t.get_text(), tuple(np.round(t.get_position(), 9))) for t in ax.texts)]
        for patch in ax.patches:
            one.append((type(patch).__name__, np.round(patch.get_path().vertices, 9).tolist() if not isinstance(patch, FancyArrowPatch) else None,
                        np.round(patch.get_transform().frozen().to_values() if isinstance(patch, Rectangle) else [0], 6).tolist(),
                        patch.get_facecolor(), round(float(patch.get_linewidth()), 9)))
        for line in ax.lines:
            one.append((repr(line.get_xdata()), repr(line.get_ydata()), repr(line.get_color())))
        for c in ax.collections:
            one.append((type(c).__name__, repr(np.asarray(c.get_offsets())), repr(c.get_array()), repr(np.asarray(c.get_facecolor()))))
        out.append(one)
    return out
