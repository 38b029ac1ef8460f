"""C23: profile plots and zenplots show the partial dependence of the features they name."""
import numpy as np
from matplotlib import pyplot as plt
from matplotlib.collections import LineCollection, QuadMesh
from matplotlib.category import UnitData
from matplotlib.contour import ContourSet

from rv import gen, oracles
from rv.common import FriedmanHStatisticMethod, GreenwellMethod, raw_distinct
from rv.core import Check, Skip, Violation


def fit(case, kinds=None, p=None, max_uniques=6, star=False):
    data = gen.make_data(case, n=case.randint(4, 14), p=p or case.randint(2, 5), kinds=kinds or ["continuous", "grid", "grid", "binary", "int8"],
                         max_uniques=max_uniques)
    setup = gen.make_setup(case, data, allow_float32=False, fn=star_fn(case, data) if star else None)
    cls = case.choice([FriedmanHStatisticMethod, GreenwellMethod])
    m = cls(random_state=case.choice([None, 5]))
    feats = gen.feature_subset(case, data.cols, least=len(data.cols) if star else 2)
    kw = dict(gen.batchsize(case, data.n), **setup.kwargs())
    if cls is FriedmanHStatisticMethod:
        kw["calculate_ova"] = False
    if case.flip(0.25):
        kw["n"] = max(2, data.n - 2)
    m.fit(setup.model, data.X, features=feats, **kw)
    used = data.sub(m.X_sampled)
    return m, used, oracles.PD(setup.fn, used.M, setup.rtol), feats or data.cols


def star_fn(case, data):
    """one feature interacts with all others: many pairs can continue a path"""
    hub = case.randint(0, len(data.cols) - 1)
    weights = case.rng.permutation(np.arange(1, len(data.cols) + 1))
    pairs = [("product", [hub, j], float(w) / 2, [0.0, 0.0, 0.0, 0.0]) for j, w in enumerate(weights[:len(data.cols)]) if j != hub]
    pairs += [("product", [i, j], 1 / 8, [0.0, 0.0, 0.0, 0.0]) for i in range(len(data.cols)) for j in range(i) if hub not in (i, j) and case.flip(0.3)]
    return gen.Fn(pairs + [("main", [hub], 1.0, [0.0, 0.0])])


MIXED = ["continuous", "grid", "string", "category", "numcat", "bool", "binary"]


def values(data, c):
    """encoded distinct values of a column, in the order of the raw ones"""
    return [float(v) for v in raw_distinct(data, data.cols.index(c))[1]]


def at(axis, raw):
    """where an axis shows a value (categories have positions of their own), NaN if it cannot"""
    if isinstance(raw, str) != isinstance(axis.get_units(), UnitData):
        return float("nan")
    units = axis.get_units()
    if isinstance(raw, str) and raw not in units._mapping:
        return float("nan")
    return float(axis.convert_units(raw))


def places(axis, data, c):
    return [at(axis, v) for v in raw_distinct(data, data.cols.index(c))[0]]


def column_at(axis, data, c):
    return sorted(at(axis, v) for v in data.X[c].astype(object).values)


def single(case):
    m, data, pd, feats = fit(case, kinds=["continuous", "grid", "binary", "int", "skewed", "close", "float32", "permuted", "sized", "uint8"], max_uniques=None)
    for f in feats:
        m.plot_profile(f)
        ax = plt.gca()
        xs, ys = map(np.asarray, ax.lines[0].get_data())
        v = values(data, f)
        case.close(xs, v, "the profile covers the observed values of the feature", rtol=1e-13, atol=1e-15, feature=f)
        case.close(ys, pd.single(data.cols.index(f), np.array(v)), "the profile is the partial dependence", rtol=1e-7, atol=1e-8 * (1 + pd.scale), feature=f)
        case.check(ax.get_xlabel() == f, "the axis names the feature", got=ax.get_xlabel(), expected=f)
        rug = sorted(float(s[0][0]) for c in ax.collections if isinstance(c, LineCollection) for s in c.get_segments())
        case.close(rug, sorted(data.M[:, data.cols.index(f)]), "the rug shows the data", atol=1e-6)
        plt.close("all")
        case.count("single_profiles")
    case.note(features=list(feats), data=data.describe())
    case.sign(type(m).__name__, data.n, tuple(feats), tuple(data.describe()["uniques"]))


def categorical(case):
    m, data, pd, feats = fit(case, kinds=["string", "string", "category", "numcat", "bool", "grid"])
    for f in feats:
        if data.types[f] == "num":
            continue
        m.plot_profile(f)
        ax = plt.gca()
        raw, codes = raw_distinct(data, data.cols.index(f))
        code = {str(r): float(c) for r, c in zip(raw, codes)}
        xs, ys = ax.lines[0].get_data(orig=True)
        xs = [str(x) for x in xs]
        case.check(sorted(xs) == sorted(code), "the profile covers the observed categories", got=xs, expected=sorted(code))
        case.close(ys, pd.single(data.cols.index(f), np.array([code[x] for x in xs])), "the profile is the partial dependence", rtol=1e-7,
                   atol=1e-8 * (1 + pd.scale), feature=f)
        case.check(ax.get_xlabel() == f, "the axis names the feature", got=ax.get_xlabel(), expected=f)
        rug = sorted(float(s[0][0]) for c in ax.collections if isinstance(c, LineCollection) for s in c.get_segments())
        case.close(rug, column_at(ax.xaxis, data, f), "the rug shows the data", atol=1e-6)
        plt.close("all")
        case.count("categorical_profiles")
    case.sign(type(m).__name__, data.n, tuple(feats))


def judge_mesh(data, pd, mesh, fx, fy, full):
    """problem with the mesh as a picture of the partial dependence of fx (horizontal) and fy (vertical), or None"""
    vx, vy = values(data, fx), values(data, fy)
    arr = np.ma.filled(np.ma.masked_invalid(np.ma.asarray(mesh.get_array(), dtype=float)), np.nan)
    co = np.asarray(mesh.get_coordinates())
    if arr.size != len(vx) * len(vy) or co.shape[:2] != (len(vy) + 1, len(vx) + 1):
        return "shape"
    arr = arr.reshape(len(vy), len(vx))
    for i, v in enumerate(places(mesh.axes.xaxis, data, fx)):
        if not co[0, i, 0] - 1e-9 <= v <= co[0, i + 1, 0] + 1e-9:
            return f"horizontal position of {fx}={v}"
    for i, v in enumerate(places(mesh.axes.yaxis, data, fy)):
        if not co[i, 0, 1] - 1e-9 <= v <= co[i + 1, 0, 1] + 1e-9:
            return f"vertical position of {fy}={v}"
    jx, jy = data.cols.index(fx), data.cols.index(fy)
    seen = set(zip(data.M[:, jx], data.M[:, jy]))
    for a, x in enumerate(vx):
        for b, y in enumerate(vy):
            if np.isnan(arr[b, a]):
                if full or (x, y) in seen:
                    return f"no value at {fx}={x}, {fy}={y}"
                continue
            e = pd.at([jx, jy], [x, y])
            if abs(arr[b, a] - e) > 1e-7 * abs(e) + 1e-8 * (1 + pd.scale):
                return f"value at {fx}={x}, {fy}={y}: {arr[b, a]} instead of {e}"
    return None


def filled_contours(ax):
    return [c for c in ax.collections if isinstance(c, ContourSet) and c.filled]


def line_contours(ax):
    return [c for c in ax.collections if isinstance(c, ContourSet) and not c.filled]


def judge_contours(cs, vx, vy, grid):
    """problem with a contour set as a picture of grid[vertical, horizontal] at vx, vy, or None

    Contours run through grid edges, where the drawn level must be the linearly interpolated value.
    """
    vx, vy, grid = np.asarray(vx, dtype=float), np.asarray(vy, dtype=float), np.asarray(grid, dtype=float)
    span, sx, sy = grid.max() - grid.min(), vx[-1] - vx[0], vy[-1] - vy[0]
    levels, judged = np.asarray(cs.levels, dtype=float), 0
    low, high = np.array([np.inf, np.inf]), np.array([-np.inf, -np.inf])
    for k, segments in enumerate(cs.allsegs):
        lo, hi = (levels[k], levels[k + 1]) if cs.filled else (levels[k], levels[k])
        for seg in segments:
            for x, y in np.asarray(seg, dtype=float):
                low, high = np.minimum(low, (x, y)), np.maximum(high, (x, y))
                ix, iy = int(np.argmin(abs(vx - x))), int(np.argmin(abs(vy - y)))
                values_here = []
                if abs(vx[ix] - x) <= 1e-7 * sx:
                    values_here.append(np.interp(y, vy, grid[:, ix]))
                if abs(vy[iy] - y) <= 1e-7 * sy:
                    values_here.append(np.interp(x, vx, grid[iy, :]))
                if not values_here:
                    if cs.filled:
                        return f"contour through ({x}, {y}), which is on no edge of the grid"
                    continue      # lines are interrupted at their labels
                judged += 1
                if all(v < lo - 1e-5 * span or v > hi + 1e-5 * span for v in values_here):
                    return f"contour {lo}..{hi} at ({x}, {y}), where the value is {values_here}"
    if cs.filled:         # values at the outermost levels may be left out because of rounding
        iy, ix = np.nonzero((grid > levels[0] + 1e-5 * span) & (grid < levels[-1] - 1e-5 * span))
        if len(ix) and not ((vx[ix] >= low[0] - 1e-6 * sx) & (vx[ix] <= high[0] + 1e-6 * sx)
                            & (vy[iy] >= low[1] - 1e-6 * sy) & (vy[iy] <= high[1] + 1e-6 * sy)).all():
            return f"contours cover {low}..{high} instead of all observed values"
    return None if judged or not cs.filled else "nothing drawn"


def joint_grid(data, pd, fx, fy):
    jx, jy = data.cols.index(fx), data.cols.index(fy)
    return np.array([[pd.at([jx, jy], [x, y]) for x in values(data, fx)] for y in values(data, fy)])


def flat(grid, pd):
    return grid.max() - grid.min() <= 1e-6 * (1e-6 + pd.scale)


def judge_picture(data, pd, picture, fx, fy, full):
    if isinstance(picture, QuadMesh):
        return judge_mesh(data, pd, picture, fx, fy, full)
    px, py = places(picture.axes.xaxis, data, fx), places(picture.axes.yaxis, data, fy)
    if not (np.diff(px) > 0).all() or not (np.diff(py) > 0).all():
        return "positions of the values"
    return judge_contours(picture, px, py, joint_grid(data, pd, fx, fy))


def share(case, m, data):
    """sometimes all combinations of the pairs are known from another method with the same calculator"""
    if isinstance(m, GreenwellMethod):
        return True
    if case.flip(0.4):
        m.pd_calculator.calculate_pd_pairs()
        return True
    return False


def pair(case):
    m, data, pd, feats = fit(case, kinds=case.choice([None, None, MIXED]))
    full = share(case, m, data)
    for _ in range(3):
        a, b = [str(q) for q in case.rng.permutation(feats)[:2]]
        if min(len(values(data, a)), len(values(data, b))) < 2:
            continue
        kind = case.choice([None, "colormesh", "contour"])
        if kind == "contour" and (not full or flat(joint_grid(data, pd, a, b), pd)):
            kind = None
        m.plot_profile(a, b, **({} if kind is None else {"kind": kind}))
        ax = plt.gcf().axes[0]
        case.check({ax.get_xlabel(), ax.get_ylabel()} == {a, b}, "the axes name the two features", got=[ax.get_xlabel(), ax.get_ylabel()])
        fx, fy = ax.get_xlabel(), ax.get_ylabel()
        if kind == "contour":
            pictures = filled_contours(ax)
            case.check(len(pictures) == 1 and len(line_contours(ax)) == 1, "filled contours and lines")
            pictures += line_contours(ax)
            case.count("contour_profiles")
        else:
            pictures = [c for c in ax.collections if isinstance(c, QuadMesh)]
            case.check(len(pictures) == 1, "one picture")
            case.count("pair_profiles")
        for picture in pictures:
            problem = judge_picture(data, pd, picture, fx, fy, full)
            case.check(problem is None, "the picture is the joint partial dependence", problem=problem, pair=(a, b), kind=kind)
        bars = [x for x in plt.gcf().axes if x.get_title() == "PD value"]
        case.check(len(bars) == 1, "a color bar of the partial dependence values")
        judge_rug(case, ax, data, fx, fy)
        plt.close("all")
    case.note(features=list(feats), data=data.describe())
    case.sign(type(m).__name__, data.n, tuple(feats), tuple(data.describe()["uniques"]))


def judge_rug(case, ax, data, fx, fy):
    """ticks along both axes at the data (horizontal ticks mark the vertical feature and vice versa)"""
    segs = [np.asarray(s) for c in ax.collections if isinstance(c, LineCollection) for s in c.get_segments()]
    for f, k in ((fx, 0), (fy, 1)):
        ticks = sorted(float(s[0][k]) for s in segs if s[0][k] == s[1][k] and s[0][1 - k] != s[1][1 - k])
        case.close(ticks, column_at((ax.xaxis, ax.yaxis)[k], data, f), "the rug shows the data", feature=f, atol=1e-6)


def panels(fig):
    out = []
    for ax in fig.axes:
        pictures = [c for c in ax.collections if isinstance(c, QuadMesh)] + filled_contours(ax)
        if ax.get_title() != "PD value" and pictures:
            out.append((ax, pictures[0]))
    return out


def zenplot(case):
    star = case.flip(0.2)
    m, data, pd, feats = fit(case, kinds=case.choice([None, None, MIXED]), p=case.choice([6, 7, 8] if star else [2, 3, 4, 5, 6, 6]), max_uniques=3 if star else 6,
                             star=star)
    if any(len(values(data, f)) < 2 for f in feats):
        raise Skip("constant feature")
    L, kw = 7, {}
    if case.flip(0.7):
        L = kw["zenpath_length"] = case.choice([6, 7, 8, 12] if star else [1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 13, 14, 15, 16, 40])
    full = share(case, m, data)
    contours = full and case.flip(0.35) and not any(flat(joint_grid(data, pd, a, b), pd) for a, b in m.pairs)
    if contours:
        kw["kind"] = "contour"
    elif case.flip(0.3):
        kw["kind"] = "colormesh"
    m.plot_zenplot(**kw)
    rows = [(a, b, float(v)) for a, b, v in zip(m.ovo["Feature 1"], m.ovo["Feature 2"], m.ovo[m.method])]
    L = min(L, len(rows))
    pool = rows[:L + 1]
    got = panels(plt.gcf())
    case.check(len(got) == L, "one panel per pair of the path", got=len(got), expected=L)
    cells = np.concatenate([[c.zmin, c.zmax] if contours else np.ma.masked_invalid(c.get_array()).compressed() for _, c in got])
    case.check(all(isinstance(c, ContourSet) == contours for _, c in got), "the kind of picture asked for")
    scales = {(c.norm.vmin, c.norm.vmax) for _, c in got}
    if np.ptp(cells) > 1e-9 * (1 + abs(cells).max()):       # the color bar widens a scale of width 0, of its panel only
        case.check(len(scales) == 1, "one color scale for all panels", got=sorted(scales, key=str))
    for lo, hi in scales:
        case.check(np.isfinite(lo) and np.isfinite(hi), "the color scale is finite", got=(lo, hi))
        case.check(lo <= cells.min() + 1e-9 and hi >= cells.max() - 1e-9, "the color scale covers all values", scale=(lo, hi), values=(cells.min(), cells.max()))
    # every panel: which (horizontal, vertical) features it can be a picture of
    options = []
    for ax, mesh in got:
        fits = []
        for a, b, v in pool:
            for x, y in ((a, b), (b, a)):
                if judge_picture(data, pd, mesh, x, y, full) is None:
                    named = (not ax.get_title() or ax.get_title() == x) and (not ax.get_ylabel() or ax.get_ylabel() == y)
                    fits.append((x, y, v, named))
        case.check(fits, "a panel is the joint partial dependence of a pair", title=ax.get_title(), ylabel=ax.get_ylabel())
        fits = [f[:3] for f in fits if f[3]]
        case.check(fits, "a panel is labelled with the features it shows", title=ax.get_title(), ylabel=ax.get_ylabel())
        options.append(fits)
        case.count("panels")
    # the path: start with the strongest pair, then the strongest unused pair continuing from the last feature, else the strongest unused
    shown = [{ax.get_title(), ax.get_ylabel()} - {""} for ax, _ in got]

    def walk(i, end, used, named=False):
        if i == L:
            return True
        rest = [(a, b, v) for a, b, v in pool if frozenset((a, b)) not in used]
        if i == 0:
            cont = [q for q in rest if q[2] == max(r[2] for r in rest)]
        else:
            cont = [q for q in rest if end in q[:2]] or rest
            cont = [q for q in cont if q[2] == max(r[2] for r in cont)]
        allowed = {frozenset(q[:2]) for q in cont}
        for x, y, v in options[i]:
            if frozenset((x, y)) not in allowed:
                continue
            if named:        # both features are named: at the panel itself, one of them possibly at the next panel along the path
                open_ = {x, y} - shown[i]
                if len(open_) > 1 or (open_ and (i + 1 == L or not open_ <= shown[i + 1])):
                    continue
            for nxt in (x, y):
                if i > 0 and end in (x, y) and nxt == end and any(end in q[:2] for q in cont):
                    continue
                if walk(i + 1, nxt, used | {frozenset((x, y))}, named):
                    return True
        return False
    case.check(walk(0, None, frozenset()), "the panels follow the path of the strongest interactions", options=options, pairs=pool)
    case.check(walk(0, None, frozenset(), named=True), "both features of every panel are named", options=options, labels=[sorted(q) for q in shown])
    case.count("stars", int(star))
    case.count("contour_zenplots" if contours else "zenplots")
    case.note(features=list(feats), length=L, rows=rows[:6])
    case.sign(type(m).__name__, data.n, tuple(feats), L, contours)


CHECK = Check(
    "C23", "profile plots show the partial dependence of the features they name",
    {"single": (single, 90, 1800), "categorical": (categorical, 40, 700), "pair": (pair, 110, 2200), "zenplot": (zenplot, 150, 2500)},
    required={"single_profiles": 100, "categorical_profiles": 20, "pair_profiles": 100, "zenplots": 30, "panels": 80, "contour_profiles": 10, "contour_zenplots": 5, "stars": 10},
    rule="lines, meshes, positions, labels and color scales read back and compared with a brute-force partial dependence; the panels of a "
         "zenplot are identified by their content and must form the documented path; distinct by method, rows, features and length")
