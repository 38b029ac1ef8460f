"""C02: the model is only asked about rows built from observed values (counterfactuals of data rows)."""
import numpy as np

from rv import gen
from rv.common import (AdditivityMeter, FriedmanHStatisticMethod, GreenwellMethod, PartialDependenceBasedImportance,
                       PartialDependenceCalculator, PermutationImportance, SejongOhMethod, pairs_of)
from rv.core import Check
from artemis._utilities.performance_metrics import MSE


def judge_queries(case, rec, data, changed_allowed, max_changed):
    """online trace specification over the query log"""
    M, p = data.M, data.M.shape[1]
    observed = [set(M[:, j]) for j in range(p)]
    for call in rec.calls:
        case.check(list(call.X.columns) == data.cols, "queried frames have the columns of the data, in their order",
                   queried=list(call.X.columns), columns=data.cols)
        case.check(list(call.X.dtypes) == list(data.X.dtypes), "queried frames have the column types of the data",
                   queried=list(map(str, call.X.dtypes)), types=list(map(str, data.X.dtypes)))
        Q = gen.encode(call.X, data.types)
        case.check(len(Q) > 0, "no empty queries")
        for j in range(p):
            case.check(set(Q[:, j]) <= observed[j], f"only observed values of {data.cols[j]} are used",
                       unobserved=sorted(set(Q[:, j]) - observed[j])[:5])
        uniq = np.unique(Q, axis=0)
        diff = uniq[:, None, :] != M[None, :, :]                  # queried row x data row x column
        count = diff.sum(axis=2)
        best = count.min(axis=1)
        case.count("distinct_rows_judged", len(uniq))
        bad = np.where(best > max_changed)[0]
        case.check(len(bad) == 0, f"every queried row equals a data row except for at most {max_changed} features",
                   row=uniq[bad[0]] if len(bad) else None)
        if changed_allowed is not None:
            for r in np.where(best > 0)[0]:
                sets = {frozenset(np.where(diff[r, k])[0]) for k in np.where(count[r] <= max_changed)[0]}
                ok = any(any(s <= a for a in changed_allowed) for s in sets)
                case.check(ok, "only requested features (pairs) are changed", row=uniq[r],
                           changed=[sorted(map(int, s)) for s in sets], allowed=[sorted(map(int, a)) for a in changed_allowed])
    case.count("queries", len(rec.calls))


def partial_dependence(case):
    data = gen.make_data(case, max_uniques=5 if case.flip() else None, n=case.randint(2, 16))
    rec = gen.Recorder()
    setup = gen.make_setup(case, data, rec=rec)
    who = case.choice(["hstat", "hstat_ova", "greenwell", "importance", "additivity", "calculator"])
    if who in ("greenwell", "calculator"):
        data = gen.make_data(case, max_uniques=4, n=case.randint(2, 12), p=case.randint(2, 5))
        setup = gen.make_setup(case, data, rec=rec)
    feats = gen.feature_subset(case, data.cols, least=2)
    kw = dict(gen.batchsize(case, data.n), **setup.kwargs())
    idx = [data.cols.index(c) for c in (feats or data.cols)]
    singles = [frozenset([j]) for j in range(len(data.cols))]
    pairs = [frozenset(q) for q in pairs_of(idx)]
    if who == "hstat":
        FriedmanHStatisticMethod().fit(setup.model, data.X, features=feats, calculate_ova=False, **kw)
        allowed, k = singles + pairs, 2
    elif who == "hstat_ova":
        FriedmanHStatisticMethod().fit(setup.model, data.X, features=feats, **kw)
        allowed, k = singles + pairs, 2
    elif who == "greenwell":
        GreenwellMethod().fit(setup.model, data.X, features=feats, **kw)
        allowed, k = singles + pairs, 2
    elif who == "importance":
        PartialDependenceBasedImportance().importance(setup.model, data.X, features=feats, **kw)
        allowed, k = singles, 1
    elif who == "additivity":
        AdditivityMeter().fit(setup.model, data.X, **kw)
        allowed, k = singles, 1
    else:
        calc = PartialDependenceCalculator(setup.model, data.X, setup.predict_function, **gen.batchsize(case, data.n))
        calc.calculate_pd_pairs()
        calc.calculate_pd_minus_single()
        allowed, k = singles + [frozenset(q) for q in pairs_of(range(len(data.cols)))], 2
    judge_queries(case, rec, data, allowed, k)
    case.note(who=who, data=data.describe(), features=feats, queries=rec.n_calls, rows=rec.n_rows)
    case.sign(who, data.n, len(data.cols), feats, rec.n_calls)


def permutation(case):
    """every query is the data itself with the values of one (a pair of) feature(s) jointly re-ordered"""
    data = gen.make_data(case, n=case.randint(2, 20))
    rec = gen.Recorder()
    model = gen.Regressor(gen.make_fn(case, data), data.types, rec)
    y = case.rng.normal(size=data.n)
    feats = gen.feature_subset(case, data.cols, least=2)
    who = case.choice(["sejong", "importance"])
    reps = case.randint(1, 4)
    if who == "sejong":
        SejongOhMethod(MSE(), random_state=case.randint(0, 999)).fit(model, data.X, y, n_repeat=reps, features=feats)
    else:
        PermutationImportance(MSE(), random_state=case.randint(0, 999)).importance(model, data.X, y, n_repeat=reps, features=feats)
    asked = [data.cols.index(c) for c in (feats or data.cols)]
    for call in rec.calls:
        case.check(list(call.X.columns) == data.cols, "queried frames have the columns of the data, in their order")
        case.check(list(call.X.dtypes) == list(data.X.dtypes), "queried frames have the column types of the data",
                   queried=list(map(str, call.X.dtypes)), types=list(map(str, data.X.dtypes)))
        Q = gen.encode(call.X, data.types)
        case.check(Q.shape == data.M.shape, "queries have the rows of the data", rows=Q.shape)
        changed = [j for j in range(Q.shape[1]) if not np.array_equal(Q[:, j], data.M[:, j])]
        case.check(len(changed) <= (2 if who == "sejong" else 1) and set(changed) <= set(asked),
                   "at most a requested pair of features is permuted", changed=changed, asked=asked)
        for j in changed:
            case.check(np.array_equal(np.sort(Q[:, j]), np.sort(data.M[:, j])), "changed columns are permuted",
                       column=data.cols[j], got=Q[:, j], data=data.M[:, j])
        if len(changed) == 2:
            rows_q = sorted(tuple(r) for r in Q[:, changed])
            rows_d = sorted(tuple(r) for r in data.M[:, changed])
            case.check(rows_q == rows_d, "two features are permuted jointly", columns=[data.cols[j] for j in changed])
            case.count("joint_permutations")
        case.count("queries")
        case.count("permuted_queries", int(bool(changed)))
    case.note(who=who, data=data.describe(), features=feats, queries=rec.n_calls)
    case.sign("perm", who, data.n, len(data.cols), feats, reps)


CHECK = Check(
    "C02", "queries are counterfactuals of data rows",
    {"partial_dependence": (partial_dependence, 400, 12000), "permutation": (permutation, 200, 6000)},
    required={"queries": 1000, "distinct_rows_judged": 5000, "permuted_queries": 500, "joint_permutations": 100},
    rule="query log of every partial dependence and permutation based computation, on random data, feature subsets and "
         "batch sizes; distinct by computation, data shape, features and number of queries",
    assumptions=["no missing values in the data"])
