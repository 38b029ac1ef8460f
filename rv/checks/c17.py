"""C17: the additivity index equals its definition."""
import numpy as np

from rv import gen, oracles, tables
from rv.common import AdditivityMeter, PartialDependenceCalculator, compare_tables, is_subsample
from rv.core import Check


def judge(case, data, fn=None, n=None):
    setup = gen.make_setup(case, data, fn=fn)
    meter = AdditivityMeter(random_state=case.randint(0, 10 ** 6) if case.flip(0.7) else None)
    kw = dict(gen.batchsize(case, data.n), **setup.kwargs())
    if n is not None:
        kw["n"] = n
    elif case.flip(0.2):
        kw["pd_calculator"] = PartialDependenceCalculator(setup.model, data.X, setup.predict_function)
    got = meter.fit(setup.model, data.X, show_progress=case.flip(0.1), **kw)
    case.check(got == meter.additivity_index or (np.isnan(got) and np.isnan(meter.additivity_index)), "the returned index is the stored one")
    used = data
    if n is not None:
        case.check(len(meter.X_sampled) == n and is_subsample(meter.X_sampled, data.X, data.types), "n rows of the data are used")
        used = data.sub(meter.X_sampled)
    pd = oracles.PD(setup.fn, used.M, setup.rtol)
    exp = oracles.additivity(pd)
    r, a = tables.tolerances(pd, setup.rtol, True)
    compare_tables(case, {"index": float(got)}, {"index": exp}, "additivity index", r, a)
    # the detailed result: centred partial dependence and prediction of every observation
    full = meter.full_result
    case.check(list(full.columns) == used.cols + ["centered_prediction"] and len(full) == used.n, "columns of the detailed result",
               columns=list(full.columns))
    atol = 4 * tables.absolute(pd, setup.rtol)
    m = pd.preds.mean()
    for j, c in enumerate(used.cols):
        case.close(full[c].values, pd.single(j, used.M[:, j]) - m, f"centred partial dependence of {c}", rtol=setup.rtol, atol=atol)
    case.close(full["centered_prediction"].values, pd.preds - m, "centred predictions", rtol=setup.rtol, atol=atol)
    if not isinstance(exp, str):
        case.check(got <= 1 + a + getattr(exp, "atol", 0.0), "the index is at most 1", index=got)
        case.count("index_below_one", int(exp < 1 - 1e-6))
        case.count("index_one", int(exp > 1 - 1e-9))
    case.note(data=data.describe(), how=setup.how, n=n, index=float(got), expected=exp)
    case.sign(data.n, len(data.cols), setup.how, n, tuple(data.describe()["uniques"]))
    return got, setup, exp


def general(case):
    data = gen.make_data(case, max_uniques=case.choice([None, None, 5, 2]))
    judge(case, data, n=case.choice([None, None, max(1, data.n // 2), data.n]))


def additive(case):
    """a sum of functions of single features is additive whatever the data"""
    data = gen.make_data(case, max_uniques=case.choice([None, None, 5, 2]))
    fn = gen.make_fn(case, data, additive=True)
    setup = gen.make_setup(case, data, fn=fn, how=case.choice(["predict", "user"]), allow_float32=False)
    pd = oracles.PD(fn, data.M)
    got = AdditivityMeter().fit(setup.model, data.X, **setup.kwargs(), **gen.batchsize(case, data.n))
    if isinstance(oracles.additivity(pd), str):
        return
    case.check(abs(got - 1) < 1e-6, "an additive model has index 1", index=got)
    case.count("additive_models")
    case.sign("additive", data.n, len(data.cols), setup.how, tuple(data.describe()["uniques"]))


def wide(case):
    judge(case, gen.make_data(case, n=case.randint(2, 7), p=case.randint(8, 13), max_uniques=3))


def long(case):
    judge(case, gen.make_data(case, n=case.randint(80, 300), p=case.randint(2, 4), kinds=["grid", "binary", "skewed", "bool", "int8", "string"], max_uniques=5))


def huge(case):
    judge(case, gen.huge_data(case))


def many_values(case):
    judge(case, gen.many_values(case, n=case.randint(101, 400), p=case.randint(2, 4)))


def very_wide(case):
    judge(case, gen.very_wide_data(case))


CHECK = Check(
    "C17", "the additivity index equals its definition",
    {"general": (general, 800, 20000), "additive": (additive, 150, 4000), "wide": (wide, 50, 1500), "long": (long, 50, 1500),
     "huge": (huge, 16, 200), "many_values": (many_values, 24, 300), "very_wide": (very_wide, 16, 300)},
    required={"index_below_one": 200, "additive_models": 80, "index_one": 10},
    rule="index and detailed result of random models and data against the definition; additive models by construction; "
         "distinct by shape, prediction source and sample size",
    assumptions=["indexes decided by rounding noise (flat predictions, relative size below 1e-6) are not judged"])
