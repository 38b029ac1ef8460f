"""C08: one-vs-all H-statistic equals its definition."""
from rv import gen, tables
from rv.checks.c07 import fit_judge
from rv.common import check_sorted, feature_table
from rv.core import Check


def one_vs_all(case):
    data = gen.make_data(case, n=case.randint(2, 18), max_uniques=case.choice([None, None, 5, 2]))
    judge(case, data, case.choice([None, None, None, max(1, data.n // 2), data.n]))


def wide(case):
    judge(case, gen.make_data(case, n=case.randint(2, 6), p=case.randint(8, 12), max_uniques=3), None)


def long(case):
    judge(case, gen.make_data(case, n=case.randint(40, 60), p=2, kinds=["grid", "binary", "skewed", "int8"], max_uniques=4), None)


def many_values(case):
    judge(case, gen.many_values(case, n=case.randint(101, 140)), None)


def very_wide(case):
    judge(case, gen.very_wide_data(case, n=3), None)


def judge(case, data, n):
    m, setup, used, pd, use, normalized, kw = fit_judge(case, data, ova=True, n=n, least=1)
    case.check(sorted(m.ova["Feature"]) == sorted(use), "one value per requested feature", got=list(m.ova["Feature"]))
    tables_judge(case, m, used, pd, use, normalized, setup.rtol)
    check_sorted(case, m.ova[m.method], False, "strongest interaction with all others first")
    case.count("features", len(m.ova))
    case.note(data=data.describe(), how=setup.how, normalized=normalized, n=n, ova=feature_table(m.ova, m.method))
    case.sign(data.n, len(data.cols), setup.how, normalized, n, tuple(use), tuple(data.describe()["uniques"]))


def tables_judge(case, m, used, pd, use, normalized, rtol):
    from rv.common import compare_tables
    exp = tables.expected_ova(used, pd, use, normalized)
    r, a = tables.tolerances(pd, rtol, normalized)
    compare_tables(case, feature_table(m.ova, m.method), exp, "one vs all H-statistic", r, a)


CHECK = Check(
    "C08", "one-vs-all H-statistic equals its definition",
    {"one_vs_all": (one_vs_all, 800, 12000), "wide": (wide, 40, 800), "long": (long, 16, 400), "many_values": (many_values, 12, 150), "very_wide": (very_wide, 6, 100)},
    required={"nonzero_values": 400, "features": 1000},
    rule="one-vs-all tables of random models and data against the definition evaluated directly; distinct by shape, "
         "prediction source, normalisation, sample size, features",
    assumptions=["values decided by rounding noise (flat predictions, relative size below 1e-6) are not judged"])
