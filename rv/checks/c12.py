"""C12: permutation importance equals its definition over the permutations actually drawn."""
import numpy as np

from rv import gen, perf
from rv.common import PermutationImportance, SejongOhMethod, check_sorted, compare_tables, feature_table
from rv.core import Check
from artemis._utilities.domain import ProblemType


def long_trace(case):
    trace(case, perf.long_data(case))


def long_inside(case):
    inside(case, perf.long_data(case))


def wide_trace(case):
    trace(case, perf.unique_data(case, n=case.randint(12, 16), p=case.randint(10, 14)))


def trace(case, X=None):
    X = perf.unique_data(case) if X is None else X
    metric = perf.make_metric(case)
    labels = perf.make_labels(case, metric)
    y, yt = perf.make_target(case, len(X), labels, X.index)
    t = perf.Tracer(X)
    model = perf.TraceModel(t, case.randint(0, 10 ** 9), len(X), labels, perf.make_box(case))
    feats = gen.feature_subset(case, list(X.columns), least=1)
    R = case.choice([1, 2, 3, 6, None]) if len(X) > 30 or case.flip(0.93) else case.choice([20, 35, 110])
    given = () if isinstance(metric, perf.RMSE) and case.flip(0.4) else (metric,)        # the default is RMSE
    imp = PermutationImportance(*given, **({"random_state": case.randint(0, 10 ** 6)} if case.flip(0.7) else {}))
    kw = {} if R is None else {"n_repeat": R}
    if feats is not None or case.flip():
        kw["features"] = feats
    table = imp.importance(model, X, yt, show_progress=case.flip(0.1), **kw)
    R = R or 15
    use = feats or list(X.columns)
    case.check(table.equals(imp.feature_importance), "the returned table is the stored one")
    case.check(sorted(table["Feature"]) == sorted(use), "one row per requested feature", got=list(table["Feature"]))
    case.check(all(len(e["S"]) <= 1 and e["whole"] and e["S"] <= set(use) for e in t.events), "one requested feature is permuted at a time",
               seen=[sorted(e["S"]) for e in t.events][:10])
    rows_ok = all(np.array_equal(e["rows"], np.arange(len(X))) for e in t.events)
    case.check(rows_ok, "the other features keep their row order")
    base = [perf.formula(metric, y[e["rows"]], e["y"]) for e in t.events if not e["S"]]
    case.check(len(base) >= 1, "the unpermuted data is scored")
    sign = -1.0 if metric.applicable_to(ProblemType.CLASSIFICATION) else 1.0
    exp = {}
    for f in use:
        s = [perf.formula(metric, y[e["rows"]], e["y"]) for e in t.events if e["S"] == frozenset([f])]
        case.check(len(s) == R, "every feature is permuted n_repeat times", feature=f, observed=len(s), n_repeat=R)
        exp[f] = sign * (float(np.mean(s)) - base[0])
        fresh = len({e["perms"] for e in t.events if e["S"] == frozenset([f])})
        case.check(fresh == R, "every repetition uses a fresh permutation", feature=f, distinct=fresh, n_repeat=R)
    compare_tables(case, feature_table(table), exp, "mean change of the score", 1e-7, 1e-9)
    check_sorted(case, table["Importance"], False, "most important feature first")
    case.count("events", len(t.events))
    case.note(metric=type(metric).__name__, n_repeat=R, features=feats, importance=feature_table(table))
    case.sign(type(metric).__name__, R, tuple(use), len(X), X.shape[1], type(yt).__name__)


def inside(case, X=None):
    """the importance reported together with performance based interactions"""
    X = perf.unique_data(case) if X is None else X
    y, yt = perf.make_target(case, len(X), None, X.index)
    t = perf.Tracer(X)
    model = perf.SetModel(t, case.randint(0, 10 ** 9), perf.make_box(case))
    problem = case.choice([ProblemType.REGRESSION, ProblemType.CLASSIFICATION])
    metric = perf.SetMetric(problem, y, model.problems)
    feats = gen.feature_subset(case, list(X.columns), least=2)
    n = case.choice([None, None, len(X) - 1, len(X)])
    m = SejongOhMethod(metric, random_state=case.randint(0, 10 ** 6))
    m.fit(model, X, yt, n_repeat=case.choice([1, 2, 3]), features=feats, **({} if n is None else {"n": n}))
    use = feats or list(X.columns)
    case.check(not model.problems, "performance is measured on matching rows and permuted columns", problems=model.problems[:3])
    sign = -1.0 if problem == ProblemType.CLASSIFICATION else 1.0
    exp = {f: sign * (model.w([f]) - model.w([])) for f in use}
    case.check(sorted(m.feature_importance["Feature"]) == sorted(use), "one row per requested feature")
    compare_tables(case, feature_table(m.feature_importance), exp, "importance of the performance based method", 1e-9, 1e-9)
    check_sorted(case, m.feature_importance["Importance"], False, "most important feature first")
    case.count("events", metric.n)
    case.sign("inside", problem, n, tuple(use), len(X))


CHECK = Check(
    "C12", "permutation importance equals its definition",
    {"trace": (trace, 400, 9000), "inside": (inside, 160, 4000), "long_trace": (long_trace, 10, 200),
     "long_inside": (long_inside, 8, 150), "wide_trace": (wide_trace, 24, 400)},
    required={"events": 5000, "nonzero_values": 800},
    rule="log of every query; the importance is recomputed from what was really permuted; distinct by metric, repetitions, "
         "features, shape and kind of target",
    assumptions=["columns with distinct values, 12 or more rows: an accidental identity permutation is negligible"])
