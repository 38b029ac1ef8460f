"""C20: comparing two methods: rank correlations of the strengths of their common pairs, and the plot of exactly these pairs."""
import numpy as np

from rv import anyfit, realmodels
from rv.common import FeatureInteractionMethodComparator
from rv.core import Check, Skip, Violation


def ranks(v):
    v = np.asarray(v, dtype=float)
    return np.array([np.sum(v < x) + (np.sum(v == x) + 1) / 2 for x in v])


def pearson(a, b):
    a, b = a - a.mean(), b - b.mean()
    d = np.sqrt((a * a).sum() * (b * b).sum())
    return float((a * b).sum() / d) if d > 0 else float("nan")


def kendall(a, b):
    s = na = nb = 0
    for i in range(len(a)):
        for j in range(i):
            x, y = np.sign(a[i] - a[j]), np.sign(b[i] - b[j])
            s, na, nb = s + x * y, na + (x != 0), nb + (y != 0)
    return float(s / np.sqrt(na * nb)) if na and nb else float("nan")


def expected(f, g):
    A, B = f.strengths(), g.strengths()
    common = [k for k in A if k in B]
    a = np.array([A[k] for k in common]) * (-1 if f.ascending else 1)
    b = np.array([B[k] for k in common]) * (-1 if g.ascending else 1)
    ok = ~(np.isnan(a) | np.isnan(b))
    a, b = a[ok], b[ok]
    if len(a) < 2:
        return None
    out = {"kendall": kendall(a, b), "spearman": pearson(ranks(a), ranks(b))}
    if ok.all():
        out["pearson"] = out["spearman"]      # Pearson correlation of the ranks
    return out


def same(got, exp):
    return (np.isnan(got) and np.isnan(exp)) or abs(got - exp) < 1e-9


JOINABLE = ["a", "a-b", "b", "b-c", "c", "c-a", "-", "a b", "b c", "a b c"]        # joined names of different pairs are equal


def two(case, least=2, p=None):
    for _ in range(3):
        try:
            return try_two(case, least, p)
        except Skip:
            pass
    return try_two(case, least, p)


def try_two(case, least, p):
    p = case.choice([q for q in (2, 3, 4, 4, 5, 6, 9) if q >= least]) if p is None else p
    names = [str(c) for c in case.rng.permutation(JOINABLE)] if case.flip(0.25) else None
    X, y = realmodels.numeric_data(case, n=case.randint(14, 30 if p < 5 or p > 10 else 16), p=p, names=names)
    X = X.round(0 if case.flip() or 4 < p < 11 else 1)
    known = anyfit.KINDS if p < 11 else ["sejong", "cmd", "split"]          # the others take long with many pairs
    kinds = [case.choice(known), case.choice(known)]
    fs = []
    for k in kinds:
        feats = None if case.flip(0.5) else [str(c) for c in case.rng.permutation(X.columns)[:case.randint(min(3, X.shape[1]), X.shape[1])]]
        o = {"features": feats} if k in ("hstat", "greenwell", "sejong") else {"only_def": case.flip()}
        fs.append(anyfit.fit_kind(case, k, X=X, y=y, options=o))
    f, g = fs
    if not set(f.strengths()) & set(g.strengths()):
        raise Skip("nothing in common")
    return f, g


def describe(case, f, g):
    case.note(methods=[f.kind, g.kind], features=[f.features, g.features], strengths=[[sorted(k) + [v] for k, v in q.strengths().items()][:8] for q in (f, g)])
    case.sign(f.kind, g.kind, len(f.m.ovo), len(g.m.ovo), len(set(f.strengths()) & set(g.strengths())))


def correlation(case):
    f, g = two(case, 3)
    exp = expected(f, g)
    if exp is None:
        raise Skip("fewer than two common pairs")
    comp = FeatureInteractionMethodComparator()
    df = comp.correlations(f.m, g.m)
    case.check(list(df["method"]) == ["pearson", "kendall", "spearman"], "the three correlations", got=list(df["method"]))
    got = dict(zip(df["method"], map(float, df["value"])))
    back = dict(zip(df["method"], map(float, comp.correlations(g.m, f.m)["value"])))
    for name, e in exp.items():
        case.check(same(got[name], e), "rank correlation of the common pairs", which=name, got=got[name], expected=e, methods=[f.kind, g.kind])
        case.check(same(back[name], e), "does not depend on the order of the methods", which=name, got=back[name], expected=e)
        one = float(comp.correlation(f.m, g.m, name))
        case.check(same(one, e), "single correlation", which=name, got=one, expected=e)
        case.count("nontrivial_correlations", int(not np.isnan(e) and abs(e) < 1))
    case.check(same(float(comp.correlation(f.m, g.m)), exp["kendall"]), "kendall is the default")
    s = expected(f, f)
    if s is not None and not np.isnan(s["kendall"]):
        for name in s:
            case.check(same(float(comp.correlation(f.m, f.m, name)), 1.0), "a method agrees with itself", which=name)
    comp.summary(f.m, g.m)
    stored = dict(zip(comp.correlations_df["method"], map(float, comp.correlations_df["value"])))
    case.check(all(same(stored[k], got[k]) for k in got), "the summary stores the same correlations")
    describe(case, f, g)


def many(case):
    """more than 50 common pairs"""
    f, g = two(case, p=case.choice([11, 12, 13]))
    exp = expected(f, g)
    if exp is None:
        raise Skip("fewer than two common pairs")
    df = FeatureInteractionMethodComparator().correlations(f.m, g.m)
    for name, value in zip(df["method"], map(float, df["value"])):
        case.check(name not in exp or same(value, exp[name]), "rank correlation of the common pairs", which=name, got=value, expected=exp.get(name))
    fig, ax = FeatureInteractionMethodComparator().comparison_plot(f.m, g.m)
    point_checks(case, f, g, fig, ax, 3, False)
    describe(case, f, g)


def point_checks(case, f, g, fig, ax, labels, box):
    A, B = f.strengths(), g.strengths()
    pts = np.asarray(ax.collections[0].get_offsets(), dtype=float).reshape(-1, 2) if ax.collections else np.empty((0, 2))
    pts = [tuple(None if np.isnan(v) else round(float(v), 9) for v in np.ma.filled(p, np.nan)) for p in pts]
    # one point per row of the first method (both directions of a split score pair are rows of their own)
    exp = []
    rows = [(frozenset((a, b)), v) for a, b, v in f.rows()] if f.kind == "split" else list(A.items())
    for k, v in rows:
        if k in B:
            exp.append(tuple(None if np.isnan(q) else round(q, 9) for q in (v, B[k])))
    key = lambda t: tuple((q is None, q or 0.0) for q in t)      # noqa
    case.check(len(pts) == len(exp), "one point per common pair", got=len(pts), expected=len(exp))
    for p, q in zip(sorted(pts, key=key), sorted(exp, key=key)):
        for x, y in zip(p, q):
            if (x is None) != (y is None) or (x is not None and abs(x - y) > 1e-8 * max(1, abs(y))):
                raise Violation("points are the strengths of the common pairs", {"got": pts, "expected": exp})
        case.count("points")
    case.check(ax.xaxis_inverted() == f.ascending and ax.yaxis_inverted() == g.ascending, "stronger interactions are to the right and up",
               inverted=[ax.xaxis_inverted(), ax.yaxis_inverted()], ascending=[f.ascending, g.ascending])
    case.check(ax.get_xlabel() == f.m.method and ax.get_ylabel() == g.m.method, "axes are named after the methods")
    texts = [t for t in ax.texts if hasattr(t, "xy") and not np.isnan(t.xy[0])]
    # labels sit on the points of the strongest pairs of the first method
    strongest = sorted((v for _, v in rows if not np.isnan(v)), reverse=not f.ascending)
    bound = strongest[min(labels, len(strongest)) - 1] if strongest and labels else None
    for t in texts:
        case.check(bound is not None, "labels only if asked for")
        x, y = t.xy
        case.check(x <= bound + 1e-9 if f.ascending else x >= bound - 1e-9, "only the strongest pairs are labelled", label=t.get_text(), at=(x, y))
        ok = [k for k, v in rows if k in B and abs(v - x) < 1e-9 and (abs(B[k] - y) < 1e-9 or np.isnan(y) and np.isnan(B[k]))
              and any(t.get_text() == f"{a}-{b}" for a in k for b in k if a != b or len(k) == 1)]
        case.check(len(ok) >= 1, "a label names the pair it points to", label=t.get_text(), at=(x, y))
        case.count("labels")
    if all(k in B for k, _ in rows) and not any(np.isnan(v) for _, v in rows):
        case.check(len(texts) == min(labels, len(rows)), "the requested number of pairs is labelled", got=len(texts), labels=labels)
    boxes = [t.get_text() for t in ax.texts if "orrelation" in t.get_text()]
    case.check(len(boxes) == int(box), "correlation box only if asked for", got=boxes)
    if box:
        e = expected(f, g) or {}
        lines = dict(line.split("=") for line in boxes[0].split("\n") if "=" in line)
        case.check(set(lines) == {"Pearson", "Kendall", "Spearman"}, "correlation box", got=boxes[0])
        for name, v in e.items():
            shown = float(lines[name.capitalize()])
            case.check((np.isnan(v) and np.isnan(shown)) or abs(shown - v) <= 0.00051, "the correlation box shows the correlations",
                       which=name, shown=shown, expected=v)
        case.count("boxes")


def plot(case):
    f, g = two(case)
    comp = FeatureInteractionMethodComparator()
    labels = case.choice([0, 1, 2, 3, 5, 50])
    box = case.flip()
    kw = {}
    if labels != 3 or case.flip():
        kw["n_labels"] = labels
    if box or case.flip():
        kw["add_correlation_box"] = box
    if case.flip(0.3):       # an earlier comparison on the same object
        comp.summary(g.m, g.m)
    fig, ax = comp.comparison_plot(f.m, g.m, **kw)
    point_checks(case, f, g, fig, ax, labels, box)
    comp.summary(f.m, g.m)
    fig, ax = comp.ovo_profiles_comparison_plot
    point_checks(case, f, g, fig, ax, 3, True)
    describe(case, f, g)


CHECK = Check(
    "C20", "comparison of two methods",
    {"correlation": (correlation, 200, 3600), "plot": (plot, 150, 2400), "many": (many, 8, 150)},
    required={"nontrivial_correlations": 150, "points": 400, "labels": 100, "boxes": 60},
    rule="pairs of methods fitted on the same data with equal, overlapping and different features; correlations recomputed from the "
         "tables, every point, label and text of the plot read back; distinct by methods, rows and number of common pairs")
