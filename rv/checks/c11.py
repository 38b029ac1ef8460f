"""C11: performance based (Sejong Oh) interaction equals its definition over the permutations actually drawn."""
import itertools

import numpy as np

from rv import gen, perf
from rv.common import SejongOhMethod, check_pairs, check_sorted, compare_tables, pair_table, pairs_of, unordered
from rv.core import Check
from artemis._utilities.domain import ProblemType


def by_sets(case, X=None):
    """score depends only on the set of permuted features: the value is known for every pair, order and n_repeat"""
    X = perf.unique_data(case) if X is None else X
    y, yt = perf.make_target(case, len(X), None, X.index)
    t = perf.Tracer(X)
    model = perf.SetModel(t, case.randint(0, 10 ** 9), perf.make_box(case))
    metric = perf.SetMetric(case.choice([ProblemType.REGRESSION, ProblemType.CLASSIFICATION]), y, model.problems)
    feats = gen.feature_subset(case, list(X.columns), least=2)
    n = case.choice([None, None, len(X) - 1, len(X)])
    m = SejongOhMethod(metric, random_state=case.randint(0, 10 ** 6) if case.flip(0.7) else None)
    kw = {} if n is None else {"n": n}
    R = case.choice([1, 1, 2, 3]) if len(X) > 30 or case.flip(0.95) else case.choice([25, 60])
    m.fit(model, X, yt, n_repeat=R, features=feats, show_progress=case.flip(0.1), **kw)
    use = feats or list(X.columns)
    case.check(not model.problems, "performance is measured on matching rows and permuted columns", problems=model.problems[:3])
    check_pairs(case, m, use, "every pair of the requested features has one value")
    w = model.w
    exp = {frozenset(q): abs(w(q) - w(q[:1]) - w(q[1:]) + w(())) for q in pairs_of(use)}
    compare_tables(case, unordered(pair_table(m)), exp, "performance based interaction", 1e-9, 1e-9)
    check_sorted(case, m.ovo[m.method], False, "strongest interaction first")
    case.count("scores", metric.n)
    case.note(columns=list(X.columns), n=n, features=feats, n_repeat=R, ovo=pair_table(m))
    case.sign("sets", len(X), X.shape[1], n, tuple(use), R, metric.problem_type, type(yt).__name__)


def long_sets(case):
    by_sets(case, perf.long_data(case))


def long_trace(case):
    trace(case, perf.long_data(case))


def wide_sets(case):
    by_sets(case, perf.unique_data(case, n=case.randint(12, 16), p=case.randint(10, 14)))


def trace(case, X=None):
    """one pair, any metric: the value is recomputed from the logged queries"""
    X = perf.unique_data(case, n=case.randint(12, 20)) if X is None else X
    metric = perf.make_metric(case)
    labels = perf.make_labels(case, metric)
    y, yt = perf.make_target(case, len(X), labels, X.index)
    t = perf.Tracer(X)
    model = perf.TraceModel(t, case.randint(0, 10 ** 9), len(X), labels, perf.make_box(case))
    a, b = [str(c) for c in case.rng.permutation(X.columns)[:2]]
    n = case.choice([None, None, len(X) - 1])
    kw = {} if n is None else {"n": n}
    R = case.choice([1, 2, 3, 5, 8, None]) if len(X) > 30 or case.flip(0.93) else case.choice([20, 35, 110])
    if R is not None:
        kw["n_repeat"] = R
    given = () if isinstance(metric, perf.RMSE) and case.flip(0.4) else (metric,)        # the default is RMSE
    m = SejongOhMethod(*given, random_state=case.randint(0, 10 ** 6))
    m.fit(model, X, yt, features=[a, b], **kw)
    R = R or 10
    got = unordered(pair_table(m))[frozenset((a, b))]
    score = {S: [perf.formula(metric, y[e["rows"]], e["y"]) for e in t.events if e["S"] == S]
             for S in (frozenset(), frozenset([a]), frozenset([b]), frozenset([a, b]))}
    case.check(all(e["joint"] and e["whole"] for e in t.events), "pairs are permuted jointly")
    case.check({e["S"] for e in t.events} <= set(score), "only the requested features are permuted",
               seen=[sorted(e["S"]) for e in t.events if e["S"] not in score][:3])
    base = score[frozenset()][0]
    both = score[frozenset([a, b])]
    case.check(len(both) == R, "both features are permuted n_repeat times", observed=len(both), n_repeat=R)
    sa, sb = score[frozenset([a])], score[frozenset([b])]
    case.check(len(sa) >= R and len(sb) >= R, "each feature is permuted n_repeat times")
    # single permutations are also drawn for the importance, before or after
    candidates = []
    for pick in (slice(0, R), slice(len(sa) - R, len(sa))):
        candidates.append(float(np.mean([abs((ab - base) - (x - base) - (z - base)) for ab, x, z in zip(both, sa[pick], sb[pick])])))
    ok = any(abs(got - c) <= 1e-9 + 1e-7 * abs(c) for c in candidates)
    case.check(ok, "mean over repetitions of |joint effect - separate effects|", observed=got, candidates=candidates, base=base,
               both=both, first=sa, second=sb)
    perms = {e["perms"] for e in t.events if e["S"] == frozenset([a, b])}
    case.check(len(perms) == R, "every repetition uses a fresh permutation", distinct=len(perms), n_repeat=R)
    for f, s in ((a, sa), (b, sb)):
        single = {e["perms"] for e in t.events if e["S"] == frozenset([f])}
        case.check(len(single) >= R, "every repetition uses a fresh permutation", feature=f, distinct=len(single), n_repeat=R)
    case.count("nonzero_values", int(got > 1e-9))
    case.count("events", len(t.events))
    case.note(pair=[a, b], metric=type(metric).__name__, n_repeat=R, n=n, value=got, base=base)
    case.sign("trace", type(metric).__name__, R, n, len(X), X.shape[1], type(yt).__name__)


CHECK = Check(
    "C11", "performance based interaction equals its definition",
    {"by_sets": (by_sets, 320, 8000), "trace": (trace, 320, 8000), "long_sets": (long_sets, 8, 150),
     "long_trace": (long_trace, 12, 200), "wide_sets": (wide_sets, 16, 300)},
    required={"scores": 3000, "events": 3000, "nonzero_values": 150},
    rule="log of every query and score; the value of a pair is recomputed from what was really permuted; distinct by "
         "metric, repetitions, sample size, features and shape",
    assumptions=["columns with distinct values, 12 or more rows: an accidental identity permutation is negligible"])
