"""C01: partial dependence values are exact, for any history of calculation requests on one calculator."""
import numpy as np

from rv import gen, oracles
from rv.common import PartialDependenceCalculator, raw_distinct
from rv.core import Check


def verify_all(case, calc, data, pd, want, tol):
    """every cell requested so far is exact, every other is exact or not available (NaN)"""
    p = len(data.cols)
    distinct = [raw_distinct(data, j) for j in range(p)]
    for j, c in enumerate(data.cols):
        got = np.asarray(calc.get_pd_single(c), dtype=float)
        exp = pd.single(j, distinct[j][1])
        case.check(got.shape == exp.shape, f"one partial dependence value per distinct value of {c}",
                   got=got, expected=exp)
        ok = np.isclose(got, exp, rtol=tol, atol=tol * max(pd.scale, 1e-12))
        ok |= np.isnan(got) & (c not in want["single"])
        case.count("pd_values_seen", int((~np.isnan(got)).sum()))
        case.check(ok.all(), f"partial dependence of {c}", got=got, expected=exp, requested=c in want["single"],
                   values=distinct[j][0])
        got = np.asarray(calc.get_pd_minus_single(c), dtype=float)
        if not np.isnan(got).all() or c in want["minus"]:
            exp = pd.minus(j)
            ok = np.isclose(got, exp, rtol=tol, atol=tol * max(pd.scale, 1e-12)) if got.shape == exp.shape else np.zeros(1, bool)
            ok |= np.isnan(got) & (c not in want["minus"])
            case.count("pd_minus_values_seen", int((~np.isnan(got)).sum()))
            case.check(ok.all(), f"partial dependence on all features but {c}", got=got, expected=exp)
    for i in range(p):
        for j in range(i + 1, p):
            a, b = data.cols[i], data.cols[j]
            got = np.asarray(calc.get_pd_pairs(a, b), dtype=float)
            mode = want["pairs"].get((i, j))
            if np.isnan(got).all() and mode is None:
                continue
            exp = pd.pair(i, j, distinct[i][1], distinct[j][1])
            case.check(got.shape == exp.shape, "one value per combination of distinct values", got=got.shape)
            need = np.zeros(exp.shape, dtype=bool)
            if mode == "all":
                need[:] = True
            elif mode == "observed":
                for x, y in zip(data.M[:, i], data.M[:, j]):
                    need[list(distinct[i][1]).index(x), list(distinct[j][1]).index(y)] = True
            ok = np.isclose(got, exp, rtol=tol, atol=tol * max(pd.scale, 1e-12)) | (np.isnan(got) & ~need)
            case.count("pd_pair_values_seen", int((~np.isnan(got)).sum()))
            case.check(ok.all(), f"partial dependence of the pair {a}, {b}", got=got, expected=exp, requested=mode)


def history(case):
    big = case.flip(0.12)
    data = gen.make_data(case, n=case.randint(40, 120) if big else None, p=case.randint(2, 3) if big else None,
                         max_uniques=4 if big or case.flip(0.6) else None)
    drive(case, data, case.randint(1, 5))


def wide(case):
    data = gen.make_data(case, n=case.randint(2, 8), p=case.randint(8, 12), max_uniques=3)
    drive(case, data, case.randint(1, 3))


def huge(case):
    drive(case, gen.huge_data(case, p=2), 2, ("single", "pairs_all", "pairs_obs"))


def many_values(case):
    drive(case, gen.many_values(case, n=case.choice([None, None, 240])), 2, ("single", "pairs_obs", "pairs_obs", "minus"))


def very_wide(case):
    drive(case, gen.very_wide_data(case), 2, ("single", "pairs_all", "pairs_obs"))


def drive(case, data, steps, kinds=("single", "pairs_all", "pairs_obs", "minus", "pairs_all", "pairs_obs")):
    n, p = data.n, len(data.cols)
    setup = gen.make_setup(case, data, allow_float32=True)
    bs = gen.batchsize(case, n)
    calc = PartialDependenceCalculator(setup.model, data.X, *([setup.predict_function] if case.flip() and setup.predict_function
                                                              else []), **bs) \
        if setup.predict_function is None else \
        PartialDependenceCalculator(setup.model, data.X, setup.predict_function, **bs)
    pd = oracles.PD(setup.fn, data.M, setup.rtol)
    want = {"single": set(), "minus": set(), "pairs": {}}
    ops = []
    for _ in range(steps):
        op = case.choice(kinds)
        progress = {"show_progress": True} if case.flip(0.1) else {}
        if op == "single":
            sub = gen.feature_subset(case, data.cols)
            calc.calculate_pd_single(sub, **progress) if sub is not None else calc.calculate_pd_single(**progress)
            want["single"] |= set(sub if sub is not None else data.cols)
        elif op == "minus":
            sub = gen.feature_subset(case, data.cols)
            if p > 7 and sub is None:
                sub = [data.cols[case.randint(0, p - 1)]]
            calc.calculate_pd_minus_single(sub, **progress) if sub is not None else calc.calculate_pd_minus_single(**progress)
            want["minus"] |= set(sub if sub is not None else data.cols)
        else:
            allc = [(a, b) for i, a in enumerate(data.cols) for b in data.cols[i + 1:]]
            if case.flip(0.3):
                sub = None
            else:
                k = case.randint(1, min(len(allc), 6))
                sub = [allc[i] for i in case.rng.permutation(len(allc))[:k]]
                sub = [(b, a) if case.flip() else (a, b) for a, b in sub]
                if case.flip(0.15):
                    sub.append(sub[0])
            mode = "all" if op == "pairs_all" else "observed"
            kw = {} if mode == "all" and case.flip() else {"all_combinations": mode == "all"}
            calc.calculate_pd_pairs(sub, **kw, **progress) if sub is not None else calc.calculate_pd_pairs(**kw, **progress)
            for a, b in (sub if sub is not None else allc):
                key = tuple(sorted((data.cols.index(a), data.cols.index(b))))
                if want["pairs"].get(key) != "all":
                    want["pairs"][key] = mode
        ops.append(op)
    verify_all(case, calc, data, pd, want, setup.rtol)
    lookups(case, calc, data, pd, want, setup.rtol)
    case.count("requests", len(ops))
    case.note(data=data.describe(), how=setup.how, ops=ops, batchsize=bs)
    case.sign(n, p, setup.how, tuple(ops), bs.get("batchsize"), tuple(data.describe()["uniques"]))


def lookups(case, calc, data, pd, want, tol):
    """values looked up for given feature values, in any order, with repetitions, in both orientations of a pair"""
    atol, known = tol * max(pd.scale, 1e-12), {}
    long = case.choice([1100, 2600]) if case.flip(0.04) else None
    for c in want["single"]:
        j = data.cols.index(c)
        pos = case.rng.integers(0, data.n, case.randint(1, data.n + 3) if long is None else long)
        raw = data.X[c].values
        got = calc.get_pd_single(c, feature_values=[raw[i] for i in pos] if case.flip() else raw[pos])
        case.close(got, pd.single(j, data.M[pos, j]), f"looked up partial dependence of {c}", rtol=tol, atol=atol)
        case.count("lookups")
    for (i, j), mode in want["pairs"].items():
        if case.flip():
            i, j = j, i
        pos = case.rng.integers(0, data.n, case.randint(1, data.n + 3) if long is None else long)
        pos2 = pos if mode == "observed" else case.rng.integers(0, data.n, len(pos))
        ri, rj = data.X.iloc[:, i].values, data.X.iloc[:, j].values
        got = calc.get_pd_pairs(data.cols[i], data.cols[j], feature_values=[(ri[a], rj[b]) for a, b in zip(pos, pos2)])
        exp = [known[k] if k in known else known.setdefault(k, pd.at([i, j], list(k[2:]))) for k in
               ((i, j, x, y) for x, y in zip(data.M[pos, i], data.M[pos2, j]))]
        case.close(got, exp, f"looked up partial dependence of {data.cols[i]}, {data.cols[j]}", rtol=tol, atol=atol)
        case.count("lookups")


CHECK = Check(
    "C01", "partial dependence values are exact",
    {"history": (history, 520, 16000), "wide": (wide, 60, 2000),
     "huge": (huge, 12, 200), "many_values": (many_values, 16, 300), "very_wide": (very_wide, 8, 200)},
    required={"pd_values_seen": 300, "pd_pair_values_seen": 500, "pd_minus_values_seen": 200, "lookups": 200},
    rule="random data (ties, constants, categories, duplicate rows, odd indexes), random model, random history of "
         "calculation requests and batch sizes on one calculator; distinct by rows, columns, history, batch size and "
         "number of distinct values",
    assumptions=["models are deterministic and judge every row on its own", "no missing values in the data"])
