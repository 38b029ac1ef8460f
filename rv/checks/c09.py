"""C09: Greenwell interaction strength equals its definition."""
from rv import gen, oracles, tables
from rv.common import GreenwellMethod, check_pairs, is_subsample, pair_table
from rv.core import Check


def judge(case, data, n=None, least=2):
    setup = gen.make_setup(case, data)
    feats = gen.feature_subset(case, data.cols, least=least)
    m = GreenwellMethod(random_state=case.randint(0, 10 ** 6) if case.flip(0.7) else None)
    kw = dict(gen.batchsize(case, data.n), **setup.kwargs())
    if n is not None:
        kw["n"] = n
    m.fit(setup.model, data.X, features=feats, show_progress=case.flip(0.1), **kw)
    use = feats or data.cols
    used = data
    if n is not None:
        case.check(len(m.X_sampled) == n and is_subsample(m.X_sampled, data.X, data.types), "n rows of the data are used")
        used = data.sub(m.X_sampled)
    pd = oracles.PD(setup.fn, used.M, setup.rtol)
    check_pairs(case, m, use, "every pair of the requested features has one value")
    tables.judge_greenwell(case, m, used, pd, use, setup.rtol)
    case.count("pairs", len(m.ovo))
    case.note(data=data.describe(), how=setup.how, n=n, features=list(use), ovo=pair_table(m))
    case.sign(data.n, len(data.cols), setup.how, n, tuple(use), tuple(data.describe()["uniques"]))


def mixed(case):
    judge(case, d := gen.make_data(case, max_uniques=case.choice([5, 4, 3, 2])), case.choice([None, None, max(2, d.n // 2), d.n]))


def continuous(case):
    judge(case, gen.make_data(case, n=case.randint(2, 10), p=case.randint(2, 4)))


def categorical(case):
    judge(case, gen.make_data(case, n=case.randint(4, 20), p=case.randint(2, 4), kinds=["string", "category", "bool", "grid"], max_uniques=5))


def wide(case):
    judge(case, gen.make_data(case, n=case.randint(2, 6), p=case.randint(8, 11), max_uniques=2), least=6)


def huge(case):
    judge(case, gen.huge_data(case))


def many_values(case):
    """more than a hundred distinct values of at least one feature"""
    judge(case, gen.make_data(case, n=case.randint(101, 150), p=2, kinds=["permuted", "binary", "bool", "string", "grid"], max_uniques=3,
                              dup_rows=False))


def very_wide(case):
    judge(case, gen.very_wide_data(case))


CHECK = Check(
    "C09", "Greenwell interaction strength equals its definition",
    {"mixed": (mixed, 700, 9000), "continuous": (continuous, 250, 3000), "categorical": (categorical, 350, 4000),
     "wide": (wide, 30, 800), "huge": (huge, 10, 200), "many_values": (many_values, 24, 300), "very_wide": (very_wide, 8, 200)},
    required={"nonzero_values": 700, "pairs": 1500},
    rule="Greenwell tables of random models and data against the definition evaluated directly; distinct by shape, "
         "prediction source, sample size, features and number of distinct values")
