"""C18: row sampling: n distinct rows with their own targets; a random state makes results reproducible."""
import numpy as np
import pandas as pd

from rv import gen, monitors, perf
from rv.common import AdditivityMeter, FriedmanHStatisticMethod, GreenwellMethod, PermutationImportance, SejongOhMethod
from rv.core import Check
from artemis._utilities.domain import ProblemType
from artemis._utilities.performance_metrics import MSE

WHO = ["hstat", "greenwell", "sejong", "meter", "importance"]


class Answers:
    """prediction computed from the row alone, logs which rows were asked"""

    def __init__(self, X):
        self.cols, self.calls = list(X.columns), []
        self.types = {c: ("num" if X[c].dtype != object else "cat") for c in X.columns}

    def predict(self, Q):
        M = np.column_stack([pd.util.hash_array(np.asarray(Q[c].astype(str), dtype=object), categorize=False) % 1000 for c in self.cols]) / 100.0
        self.calls.append(len(Q))
        return M.sum(axis=1) + M[:, 0] * M[:, -1]


def target(case, n, index):
    y = case.rng.permutation(n) * 1.5 + 100
    kind = case.choice(["array", "array", "series", "list", "aligned", "foreign"])
    if kind == "array":
        return y, y, kind
    if kind == "list":
        return y, list(y), kind
    if kind == "aligned":
        return y, pd.Series(y, index=index), kind
    if kind == "foreign":
        return y, pd.Series(y, index=case.rng.permutation(n)), kind
    return y, pd.Series(y), kind


def make(who, seed):
    kw = {} if seed == "default" else {"random_state": seed}
    if who == "hstat":
        return FriedmanHStatisticMethod(**kw)
    if who == "greenwell":
        return GreenwellMethod(**kw)
    if who == "sejong":
        return SejongOhMethod(MSE(), **kw)
    if who == "importance":
        return PermutationImportance(MSE(), **kw)
    return AdditivityMeter(**kw)


def run(who, obj, model, X, y, n, n_repeat=2, features=None):
    kw = {} if n is None else {"n": n}
    if who == "sejong":
        obj.fit(model, X, y, n_repeat=n_repeat, features=features, **kw)
    elif who == "importance":
        obj.importance(model, X, y, n_repeat=n_repeat, features=features)
    elif who == "meter":
        obj.fit(model, X, **kw)
    elif who == "hstat":
        obj.fit(model, X, features=features, calculate_ova=False, **kw)
    else:
        obj.fit(model, X, features=features, **kw)


def positions(X, sub):
    """row positions of the sample, identified by the (unique) first column"""
    where = {v: i for i, v in enumerate(X.iloc[:, 0])}
    return [where.get(v) for v in sub.iloc[:, 0]]


def sample(case):
    """one fit with n: which rows, which targets"""
    who = case.choice(["hstat", "greenwell", "sejong", "sejong", "meter"])
    X = perf.unique_data(case, n=case.randint(3, 14), p=case.randint(2, 4))
    N = len(X)
    n = case.choice([1 if who in ("sejong", "meter") else 2, 2, max(2, N // 2), N - 1, N])
    y, yt, kind = target(case, N, X.index)
    model = Answers(X)
    obj = make(who, case.choice([None, 0, 1, 7, 12345, "default"]))
    for again in range(2):
        run(who, obj, model, X, yt, n)
        s = obj.X_sampled
        case.check(list(s.columns) == list(X.columns) and list(s.dtypes) == list(X.dtypes), "the sample has the columns of the data")
        pos = positions(X, s)
        case.check(len(s) == n, "n rows are used", rows=len(s), n=n)
        case.check(None not in pos and len(set(pos)) == n, "the rows of the sample are distinct rows of the data", positions=pos)
        for j in range(X.shape[1]):
            case.check(list(s.iloc[:, j]) == [X.iloc[p, j] for p in pos], "the sampled rows are intact", column=j)
        case.check(list(s.index) == [X.index[p] for p in pos], "rows keep their index")
        if who == "sejong":
            got = [float(v) for v in obj.y_sampled]
            case.check(got == [float(y[p]) for p in pos], "every sampled row keeps its own target", got=got, positions=pos, target=kind)
            case.count("targets_matched", n)
        case.count("samples")
    if case.flip(0.3):
        more = N + case.choice([1, 2, N])
        try:
            run(who, obj, model, X, yt, more)
        except Exception:       # noqa
            case.count("impossible_samples")
        else:
            case.check(False, "more rows than there are cannot be sampled", n=more, rows=N, used=len(obj.X_sampled))
    case.note(who=who, rows=N, n=n, target=kind, positions=pos)
    case.sign(who, N, n, kind, X.shape[1])


def full(case):
    """without n every row is used, in its order"""
    who = case.choice(["hstat", "greenwell", "sejong", "meter"])
    X = perf.unique_data(case, n=case.randint(3, 10), p=case.randint(2, 4))
    y, yt, kind = target(case, len(X), X.index)
    obj = make(who, case.choice([None, 3]))
    run(who, obj, Answers(X), X, yt, None)
    case.check(monitors.frame_state(obj.X_sampled) == monitors.frame_state(X), "without n the whole data is used")
    if who == "sejong":
        case.check([float(v) for v in obj.y_sampled] == [float(v) for v in y], "with its targets")
    case.count("full_runs")
    case.sign(who, len(X), X.shape[1], kind)


def reproducible(case):
    """equal random states, equal results - whatever the global generators do and whatever ran before"""
    who = case.choice(WHO)
    X = perf.unique_data(case, n=case.randint(12, 20), p=case.randint(3, 4))
    y, yt, kind = target(case, len(X), X.index)
    n = case.choice([None, 4, len(X) // 2]) if who in ("sejong", "importance") else case.choice([4, len(X) // 2])
    seed = case.choice([0, 1, 42, case.randint(0, 10 ** 9)])
    feats = None if who == "meter" else gen.feature_subset(case, list(X.columns), least=2)
    steps = case.choice([1, 1, 2, 3])
    states = []
    for r in range(2):
        np.random.seed(case.randint(0, 10 ** 6))
        if case.flip() and r == 1:          # an unrelated computation in between
            run("sejong", make("sejong", case.choice([None, seed])), Answers(X), X, yt, None, 1)
        obj = make(who, seed)
        hist = []
        for k in range(steps):
            run(who, obj, Answers(X), X, yt, n, n_repeat=2 + k, features=feats)
            hist.append(monitors.result_state(obj))
        states.append(hist)
    for k in range(steps):
        bad = monitors.diff(states[0][k], states[1][k])
        case.check(not bad, "equal random states give identical results", method=who, differing=bad, fit=k)
    case.count("reproduced", steps)
    case.note(who=who, seed=seed, n=n, steps=steps)
    case.sign(who, seed in (0, 1, 42), n is None, steps, len(X), feats)


STEPS = [1, 1, 2, 10, 100, 256, 1000, 2 ** 16, 10 ** 6, 2 ** 32]        # distances of different random states


def spread(case):
    """the sample is random: different seeds choose different rows, and every row can be chosen"""
    who = case.choice(["hstat", "greenwell", "sejong", "meter"])
    X = perf.unique_data(case, n=9, p=2)
    y, yt, kind = target(case, 9, X.index)
    seen, sets = set(), set()
    unseeded = case.flip(0.3)
    shared = make(who, None) if unseeded and case.flip() else None
    refit = shared is None and case.flip()          # the sample of a second fit is as random as that of the first
    size = case.choice([3, 3, 3, 1, 8])
    step = case.choice(STEPS)
    for s in range(60):
        obj = shared or make(who, None if unseeded else s * step)
        if refit:
            run(who, obj, Answers(X), X, yt, case.choice([None, 2, 3]), 1)
        run(who, obj, Answers(X), X, yt, size, 1)
        pos = positions(X, obj.X_sampled)
        seen |= set(pos)
        sets.add(frozenset(pos))
    if size == 8:
        case.check(len(sets) >= 8, "samples vary with the random state", distinct=len(sets), size=size)
    case.check(len(seen) == 9, "every row of the data can be sampled", never=sorted(set(range(9)) - seen))
    case.check(len(sets) >= (15 if size == 3 else 8), "samples vary with the random state", distinct=len(sets))
    case.count("spread_runs", 60)
    case.sign(who, unseeded, shared is not None, refit, size, step)


def permutations(case):
    """permutations really shuffle, differ between repetitions and between seeds, and are identical for equal seeds"""
    who = case.choice(["sejong", "importance"])
    X = perf.unique_data(case, n=14, p=5)
    y, yt, kind = target(case, 14, X.index)

    refit = case.flip(0.4)

    def log(seed):
        t, m = perf.Tracer(X), make(who, seed)
        if refit:
            run(who, m, perf.TraceModel(t, 5, 14), X, yt, None, 2)
            t = perf.Tracer(X)
        run(who, m, perf.TraceModel(t, 5, 14), X, yt, None, 4)
        return [(e["S"], e["perms"]) for e in t.events]
    one = case.choice([0, 1, 7, 11, 123456])
    a, b, c = log(one), log(one), log(one + case.choice(STEPS))
    case.check(a == b, "equal random states permute equally", method=who)
    pa, pc = [q for q in a if q[0]], [q for q in c if q[0]]
    case.check(pa != pc, "different random states permute differently", method=who)
    distinct = len({q[1][0] for q in pa})
    case.check(distinct > 0.8 * len(pa), "permutations are drawn anew", distinct=distinct, drawn=len(pa))
    moved = np.mean([np.mean(np.array(q[1][0]) != np.arange(14)) for q in pa])
    case.check(moved > 0.6, "permutations move the rows", moved=moved)
    case.count("permutations", len(pa))
    case.sign(who, kind, tuple(X.columns), refit)


CHECK = Check(
    "C18", "row sampling and reproducibility",
    {"sample": (sample, 300, 6000), "full": (full, 40, 600), "reproducible": (reproducible, 160, 3000), "spread": (spread, 16, 80),
     "permutations": (permutations, 30, 400)},
    required={"samples": 300, "targets_matched": 200, "reproduced": 120, "spread_runs": 300, "permutations": 300},
    rule="every column holds distinct values, so the sample identifies its rows; targets in every container and index; repeated "
         "fits under disturbed global generators; distinct by method, sizes, kind of target",
    assumptions=["60 samples of 3 out of 9 rows miss a row with probability below 1e-10"])
