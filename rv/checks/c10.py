"""C10: partial dependence based importance equals its definition, standalone and inside both methods."""
from rv import gen, oracles, tables
from rv.common import (FriedmanHStatisticMethod, GreenwellMethod, PartialDependenceBasedImportance, check_sorted, feature_table,
                       is_subsample)
from rv.core import Check


def judge(case, data, n=None):
    setup = gen.make_setup(case, data)
    who = case.choice(["standalone", "standalone", "hstat", "greenwell"])
    feats = gen.feature_subset(case, data.cols, least=1 if who == "standalone" else 2)
    kw = dict(gen.batchsize(case, data.n), **setup.kwargs())
    if n is not None:
        kw["n"] = n
    if who == "standalone":
        m = PartialDependenceBasedImportance()
        t = m.importance(setup.model, data.X, features=feats, show_progress=case.flip(0.1), **kw)
        case.check(t.equals(m.feature_importance), "the returned table is the stored one")
    else:
        m = FriedmanHStatisticMethod() if who == "hstat" else GreenwellMethod()
        if who == "hstat":
            kw["calculate_ova"] = case.flip(0.2)
        m.fit(setup.model, data.X, features=feats, **kw)
        t = m.feature_importance
    use = feats or data.cols
    used = data
    if n is not None:
        case.check(len(m.X_sampled) == n and is_subsample(m.X_sampled, data.X, data.types), "n rows of the data are used")
        used = data.sub(m.X_sampled)
    pd = oracles.PD(setup.fn, used.M, setup.rtol)
    case.check(list(t.columns) == ["Feature", "Importance"] and sorted(t["Feature"]) == sorted(use), "one row per requested feature",
               got=list(t["Feature"]), expected=list(use))
    tables.judge_importance(case, t, used, pd, use, setup.rtol, who)
    check_sorted(case, t["Importance"], False, "most important feature first")
    case.count("features", len(t))
    case.note(who=who, data=data.describe(), n=n, importance=feature_table(t))
    case.sign(who, data.n, len(data.cols), setup.how, n, tuple(use), tuple(data.describe()["uniques"]))


def mixed(case):
    d = gen.make_data(case, max_uniques=case.choice([None, 5, 2]), n=case.randint(2, 16))
    if d.M.shape[1] > 4 and max(len(set(d.M[:, j])) for j in range(d.M.shape[1])) > 6:
        d = gen.make_data(case, max_uniques=5)
    judge(case, d, case.choice([None, None, max(1, d.n // 2), d.n]))


def wide(case):
    judge(case, gen.make_data(case, n=case.randint(2, 6), p=case.randint(8, 12), max_uniques=2))


def huge(case):
    judge(case, gen.huge_data(case))


def many_values(case):
    judge(case, gen.make_data(case, n=case.randint(101, 200), p=2, kinds=["permuted", "binary", "bool", "string", "grid"], max_uniques=4,
                              dup_rows=False))


def very_wide(case):
    judge(case, gen.very_wide_data(case))


CHECK = Check(
    "C10", "PD based importance equals its definition",
    {"mixed": (mixed, 1200, 12000), "wide": (wide, 40, 1000), "huge": (huge, 10, 200), "many_values": (many_values, 24, 300), "very_wide": (very_wide, 10, 200)},
    required={"nonzero_values": 600, "features": 1200},
    rule="importance tables of random models and data against the definition evaluated directly; distinct by computation, "
         "shape, prediction source, sample size and features")
