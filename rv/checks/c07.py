"""C07: pairwise H-statistic equals its definition."""
from rv import gen, oracles, tables
from rv.common import FriedmanHStatisticMethod, check_pairs, is_subsample, unordered, pair_table
from rv.core import Check


def fit_judge(case, data, least=2, ova=None, n=None):
    setup = gen.make_setup(case, data)
    feats = gen.feature_subset(case, data.cols, least=least)
    normalized = case.flip(0.65)
    m = FriedmanHStatisticMethod(random_state=case.randint(0, 10 ** 6) if case.flip(0.7) else None,
                                 **({} if normalized and case.flip() else {"normalized": normalized}))
    kw = dict(gen.batchsize(case, data.n), **setup.kwargs())
    if n is not None:
        kw["n"] = n
    if feats is not None or case.flip():
        kw["features"] = feats
    if ova is not True or case.flip():            # one vs all is calculated by default
        kw["calculate_ova"] = ova
    m.fit(setup.model, data.X, show_progress=case.flip(0.1), **kw)
    use = feats or data.cols
    if n is not None:
        case.check(len(m.X_sampled) == n and is_subsample(m.X_sampled, data.X, data.types), "n rows of the data are used")
        data = data.sub(m.X_sampled)
    pd = oracles.PD(setup.fn, data.M, setup.rtol)
    return m, setup, data, pd, use, normalized, kw


def pairwise(case):
    data = gen.make_data(case, max_uniques=case.choice([None, None, 5, 2]))
    n = case.choice([None, None, None, max(1, data.n // 2), data.n])
    m, setup, used, pd, use, normalized, kw = fit_judge(case, data, ova=False, n=n)
    check_pairs(case, m, use, "every pair of the requested features has one value")
    tables.judge_h(case, m, used, pd, use, normalized, setup.rtol, ova=False)
    case.check(m.ova is None, "one vs all values only if asked for")
    case.count("pairs", len(m.ovo))
    case.note(data=data.describe(), how=setup.how, normalized=normalized, n=n, features=list(use), kw={k: str(v) for k, v in kw.items()},
              ovo=pair_table(m))
    case.sign(data.n, len(data.cols), setup.how, normalized, n, tuple(use), tuple(data.describe()["uniques"]))


def wide(case):
    data = gen.make_data(case, n=case.randint(2, 7), p=case.randint(8, 13), max_uniques=3)
    m, setup, used, pd, use, normalized, kw = fit_judge(case, data, ova=False, least=6)
    check_pairs(case, m, use, "every pair of the requested features has one value")
    tables.judge_h(case, m, used, pd, use, normalized, setup.rtol, ova=False)
    case.count("pairs", len(m.ovo))
    case.sign("wide", data.n, len(data.cols), setup.how, tuple(use))


def long(case):
    tall(case, gen.make_data(case, n=case.randint(60, 250), p=case.randint(2, 3), kinds=["grid", "binary", "skewed", "bool", "int8", "string"],
                             max_uniques=5))


def huge(case):
    tall(case, gen.huge_data(case, p=2))


def many_values(case):
    tall(case, gen.many_values(case, n=case.randint(101, 300)))


def very_wide(case):
    tall(case, gen.very_wide_data(case))


def tall(case, data):
    m, setup, used, pd, use, normalized, kw = fit_judge(case, data, ova=False)
    tables.judge_h(case, m, used, pd, use, normalized, setup.rtol, ova=False)
    case.count("pairs", len(m.ovo))
    case.sign("long", data.n, len(data.cols), setup.how, tuple(use))


CHECK = Check(
    "C07", "pairwise H-statistic equals its definition",
    {"pairwise": (pairwise, 1000, 18000), "wide": (wide, 60, 1200), "long": (long, 40, 1200), "huge": (huge, 8, 100), "many_values": (many_values, 24, 400),
     "very_wide": (very_wide, 8, 200)},
    required={"nonzero_values": 1000, "pairs": 2000},
    rule="H-statistic tables of random models and data against the definition evaluated directly; distinct by shape, "
         "prediction source, normalisation, sample size, features",
    assumptions=["values decided by rounding noise (flat effects, relative size below 1e-6) are not judged"])
