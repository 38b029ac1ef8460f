"""C05: sharing one partial dependence calculator changes nothing but the cost."""
import copy

import numpy as np

from rv import gen, oracles, tables
from rv.common import (AdditivityMeter, FriedmanHStatisticMethod, GreenwellMethod, PartialDependenceBasedImportance,
                       PartialDependenceCalculator, compare_tables, raw_distinct)
from rv.core import Check


def run(case, who, setup, data, feats, calc, kw, X=None):
    X = data.X if X is None else X
    if who == "hstat":
        m = FriedmanHStatisticMethod(normalized=case.flip())
        m.fit(setup.model, X, features=feats, pd_calculator=calc, calculate_ova=case.flip(), **kw)
        return m
    if who == "greenwell":
        m = GreenwellMethod()
        m.fit(setup.model, X, features=feats, pd_calculator=calc, **kw)
        return m
    if who == "importance":
        m = PartialDependenceBasedImportance()
        m.importance(setup.model, X, features=feats, pd_calculator=calc, **kw)
        return m
    m = AdditivityMeter()
    m.fit(setup.model, X, pd_calculator=calc, **kw)
    return m


def judge(case, who, m, setup, data, pd, feats, what):
    use = feats or data.cols
    if who == "hstat":
        tables.judge_h(case, m, data, pd, use, m.normalized, setup.rtol, ova=m.ova is not None, what=what)
    elif who == "greenwell":
        tables.judge_greenwell(case, m, data, pd, use, setup.rtol, what)
    elif who == "additivity":
        compare_tables(case, {"index": m.additivity_index}, {"index": oracles.additivity(pd)}, f"additivity {what}",
                       *tables.tolerances(pd, setup.rtol, True))
        return
    tables.judge_importance(case, m.feature_importance, data, pd, use, setup.rtol, what)


def known(calc, data):
    """masks of the values the calculator knows"""
    cols = data.cols
    return ([~np.isnan(np.array(calc.get_pd_single(c), dtype=float)) for c in cols],
            {(i, j): ~np.isnan(np.array(calc.get_pd_pairs(cols[i], cols[j]), dtype=float))
             for i in range(len(cols)) for j in range(i + 1, len(cols))},
            [~np.isnan(np.array(calc.get_pd_minus_single(c), dtype=float)) for c in cols])


def rows_needed(data, before, after):
    """rows that have to be asked for what became known (an observed combination may be part of a batch once per occurrence)"""
    need = sum(int((a & ~b).sum()) for b, a in zip(before[0], after[0])) + sum(int((a & ~b).sum()) for b, a in zip(before[2], after[2]))
    for (i, j), a in after[1].items():
        new = a & ~before[1][(i, j)]
        if new.any():
            raw_i, raw_j = positions(data, i), positions(data, j)
            need += int(new.sum()) if not new[raw_i, raw_j].any() else max(int(new.sum()), int(new[raw_i, raw_j].sum()))
    return need * data.n


def positions(data, j):
    """position of every row's value among the sorted raw values"""
    vals, codes = raw_distinct(data, j)
    at = {float(c): k for k, c in enumerate(codes)}
    return np.array([at[float(v)] for v in data.M[:, j]])


def requests(case):
    """calculator alone: every request asks only for what is not known yet"""
    data = gen.make_data(case, n=case.randint(2, 10), p=case.randint(2, 5), max_uniques=4)
    rec = gen.Recorder(keep=False)
    setup = gen.make_setup(case, data, rec=rec)
    calc = PartialDependenceCalculator(setup.model, data.X, setup.predict_function, **gen.batchsize(case, data.n))
    history = []
    for _ in range(case.randint(2, 6)):
        op = case.choice(["single", "all", "observed", "minus"])
        before = known(calc, data)
        rec.reset()
        if op in ("single", "minus"):
            sub = gen.feature_subset(case, data.cols)
            (calc.calculate_pd_single if op == "single" else calc.calculate_pd_minus_single)(sub)
        else:
            pairs = [(a, b) if case.flip() else (b, a) for i, a in enumerate(data.cols) for b in data.cols[i + 1:]]
            sub = [pairs[k] for k in case.rng.permutation(len(pairs))[:case.randint(1, len(pairs))]]
            calc.calculate_pd_pairs(sub, all_combinations=op == "all")
        after = known(calc, data)
        history.append((op, sub))
        case.check(rec.n_rows <= rows_needed(data, before, after), "known partial dependence values are not queried again",
                   rows_queried=rec.n_rows, rows_needed=rows_needed(data, before, after), history=history)
        case.count("requests")
    case.note(history=history, data=data.describe())
    case.sign("requests", data.n, len(data.cols), tuple(h[0] for h in history), tuple(data.describe()["uniques"]))


def sequence(case):
    data = gen.make_data(case, n=case.randint(2, 14), p=case.randint(2, 5), max_uniques=4)
    rec = gen.Recorder(keep=False)
    setup = gen.make_setup(case, data, rec=rec)
    pd = oracles.PD(setup.fn, data.M, setup.rtol)
    calc = PartialDependenceCalculator(setup.model, data.X, setup.predict_function, **gen.batchsize(case, data.n))
    history = []
    for _ in range(case.randint(2, 5)):
        who = case.choice(["hstat", "greenwell", "importance", "additivity"])
        feats = gen.feature_subset(case, data.cols, least=2)
        rec.reset()
        before = known(calc, data)
        m = run(case, who, setup, data, feats, calc, setup.kwargs())
        limit = rows_needed(data, before, known(calc, data)) + data.n
        case.check(rec.n_rows <= limit, "partial dependence values known from earlier methods are not queried again",
                   rows_queried=rec.n_rows, rows_needed=limit, history=history, now=who)
        case.check(m.pd_calculator is calc, "the given calculator is the one used")
        judge(case, who, m, setup, data, pd, feats, f"after {history}")
        history.append(who)
        # the same again: everything is known, at most the predictions of the data itself are asked for
        rec.reset()
        again = run(case, who, setup, data, feats, calc, setup.kwargs()) if who != "hstat" else rerun_h(m, setup, data, feats, calc)
        judge(case, who, again, setup, data, pd, feats, f"repeated after {history}")
        case.check(rec.n_rows <= data.n, "known partial dependence values are not calculated again",
                   rows_queried=rec.n_rows, rows_of_data=data.n, history=history)
        case.count("repeats")
    # one more calculator from a fitted method
    first = FriedmanHStatisticMethod()
    first.fit(setup.model, data.X, calculate_ova=False, **setup.kwargs())
    second = GreenwellMethod()
    second.fit(setup.model, first.X_sampled, pd_calculator=first.pd_calculator, **setup.kwargs())
    judge(case, "greenwell", second, setup, data, pd, None, "with the calculator of a fitted method")
    case.note(history=history, data=data.describe(), how=setup.how)
    case.sign(data.n, len(data.cols), tuple(history), setup.how, tuple(data.describe()["uniques"]))


def rerun_h(m, setup, data, feats, calc):
    again = FriedmanHStatisticMethod(normalized=m.normalized)
    again.fit(setup.model, data.X, features=feats, pd_calculator=calc, calculate_ova=m.ova is not None, **setup.kwargs())
    return again


def cost(case):
    """sharing saves queries: rows asked for by two methods with one calculator vs. with two"""
    data = gen.make_data(case, n=case.randint(3, 10), p=case.randint(2, 4), max_uniques=4)
    rec = gen.Recorder(keep=False)
    setup = gen.make_setup(case, data, rec=rec)
    uniq = [len(set(data.M[:, j])) for j in range(len(data.cols))]
    pairs = sum(uniq[i] * uniq[j] for i in range(len(uniq)) for j in range(i + 1, len(uniq)))
    # observed combinations that occur repeatedly may be part of one batch several times
    limit = data.n * (sum(uniq) + pairs + len(data.cols) * data.n + len(uniq) * (len(uniq) - 1) // 2 * data.n) + 4 * data.n
    calc = PartialDependenceCalculator(setup.model, data.X, setup.predict_function, **gen.batchsize(case, data.n))
    order = [str(w) for w in case.rng.permutation(["hstat", "greenwell", "importance", "additivity"])]
    for who in order:
        run(case, who, setup, data, None, calc, setup.kwargs())
    case.check(rec.n_rows <= limit, "methods sharing a calculator do not query partial dependence values again",
               rows=rec.n_rows, limit=limit, order=order)
    case.count("shared_runs")
    case.sign("cost", data.n, tuple(uniq), tuple(order))


class SameText(gen.Regressor):
    def __repr__(self):
        return "Model()"


def mismatch(case):
    data = gen.make_data(case, n=case.choice([case.randint(3, 10)] * 4 + [130, 400]), p=case.randint(2, 4), max_uniques=4)
    setup = gen.make_setup(case, data)
    who = case.choice(["hstat", "greenwell", "importance", "additivity"])
    kind = case.choice(["model", "cell", "rows", "fewer_rows", "more_rows", "columns", "column_order", "sampled", "one_column", "tiny", "renamed", "swapped_names"])
    calc_model, calc_X = setup.model, data.X
    X = data.X
    kw = dict(setup.kwargs())
    if kind == "model":
        how = case.choice(["other", "copy", "deepcopy", "same_text"])
        if how == "other":
            calc_model = gen.Regressor(setup.fn, data.types)
        elif how == "same_text":        # e.g. scikit-learn models with equal parameters fitted to different data
            setup.model, calc_model = SameText(setup.fn, data.types), SameText(gen.make_fn(case, data), data.types)
        else:
            calc_model = getattr(copy, how)(setup.model)
    elif kind == "cell":
        j = case.randint(0, len(data.cols) - 1)
        i = case.randint(0, data.n - 1)
        other = next((k for k in range(data.n) if data.M[k, j] != data.M[i, j]), None)
        if other is None:
            return
        calc_X = X.copy()
        calc_X.iloc[i, j] = X.iloc[other, j]
    elif kind == "rows":
        pos = np.roll(np.arange(data.n), 1)
        if np.array_equal(data.M[pos], data.M):
            return
        calc_X = X.iloc[pos]
    elif kind == "fewer_rows":
        calc_X = X.iloc[:-1]
    elif kind == "more_rows":
        X = X.iloc[1:]
    elif kind == "columns":
        calc_X = X.assign(**{"another": 1.0})
    elif kind == "column_order":
        calc_X = X[data.cols[::-1]]
    elif kind == "one_column":        # the values of one column in another order
        j = case.randint(0, len(data.cols) - 1)
        pos = case.rng.permutation(data.n)
        if np.array_equal(data.M[pos, j], data.M[:, j]):
            return
        calc_X = X.copy()
        calc_X[data.cols[j]] = X[data.cols[j]].values[pos]
    elif kind == "tiny":              # one value is a neighbouring number
        floats = [c for c in data.cols if X[c].dtype == np.float64]
        if not floats:
            return
        c, i = case.choice(floats), case.randint(0, data.n - 1)
        v = X[c].values.copy()
        v[i] = np.nextafter(v[i], case.choice([-np.inf, np.inf])) if v[i] != 0 else 1e-300
        calc_X = X.copy()
        calc_X[c] = v
    elif kind == "renamed":
        calc_X = X.rename(columns={data.cols[-1]: "another name"})
    elif kind == "swapped_names":
        a, b = data.cols[:2]
        if np.array_equal(data.M[:, 0], data.M[:, 1]):
            return
        calc_X = X.rename(columns={a: b, b: a})
    else:
        kw["n"] = data.n - 1
    calc = PartialDependenceCalculator(calc_model, calc_X, setup.predict_function)
    try:
        run(case, who, setup, data, None, calc, kw, X=X)
    except ValueError:
        case.check(True, "rejected")
    else:
        case.check(False, f"a calculator of different {'model' if kind == 'model' else 'data'} is rejected with ValueError", kind=kind, method=who)
    case.count("mismatches_" + ("model" if kind == "model" else "data"))
    case.note(kind=kind, who=who)
    case.sign(kind, who, data.n, len(data.cols))


def modified_in_place(case):
    """the user changes the data in place after values were calculated: the old values must not be taken for those of the new data"""
    data = gen.make_data(case, n=case.randint(3, 10), p=case.randint(2, 4), max_uniques=4, kinds=["continuous", "grid", "int", "binary", "string"])
    setup = gen.make_setup(case, data)
    X = data.X.copy()
    calc = PartialDependenceCalculator(setup.model, X, setup.predict_function, **gen.batchsize(case, data.n))
    if case.flip(0.7):
        run(case, case.choice(["hstat", "greenwell", "importance", "additivity"]), setup, data, None, calc, setup.kwargs(), X=X)
    j = case.randint(0, len(data.cols) - 1)
    i = case.randint(0, data.n - 1)
    other = next((k for k in range(data.n) if data.M[k, j] != data.M[i, j]), None)
    if other is None:
        return
    X.iloc[i, j] = data.X.iloc[other, j]
    who = case.choice(["hstat", "greenwell", "importance", "additivity"])
    try:
        run(case, who, setup, data, None, calc, setup.kwargs(), X=X)
    except ValueError:
        case.check(True, "rejected")
    else:
        case.check(False, "a calculator of data that was modified since is rejected with ValueError", method=who, column=data.cols[j], row=i)
    # with the data as it was, the calculator is as good as ever
    m = run(case, who, setup, data, None, calc, setup.kwargs(), X=data.X)
    judge(case, who, m, setup, data, oracles.PD(setup.fn, data.M, setup.rtol), None, "after the copy was modified")
    case.count("modified_in_place")
    case.sign("in place", who, data.n, len(data.cols), j)


CHECK = Check(
    "C05", "a shared calculator changes only the cost",
    {"sequence": (sequence, 260, 6000), "requests": (requests, 260, 6000), "cost": (cost, 80, 2000), "mismatch": (mismatch, 320, 5000),
     "modified_in_place": (modified_in_place, 60, 800)},
    required={"repeats": 300, "requests": 500, "shared_runs": 60, "mismatches_model": 10, "mismatches_data": 60, "modified_in_place": 20},
    rule="random sequences of methods, feature subsets and options sharing one calculator, judged against the definitions "
         "and by the query log; calculators of a different model or different data; distinct by history and data shape")
