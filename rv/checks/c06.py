"""C06: a model that fails in the middle of a computation (every fault point) never leaves wrong values behind."""
import numpy as np

from rv import gen, oracles, tables
from rv.checks.c05 import judge
from rv.common import (AdditivityMeter, FriedmanHStatisticMethod, GreenwellMethod, PartialDependenceBasedImportance,
                       PartialDependenceCalculator, PermutationImportance, SejongOhMethod, feature_table, pair_table)
from rv.checks.c01 import verify_all
from rv.core import Check
from artemis._utilities.performance_metrics import MSE


class Interrupt(KeyboardInterrupt):
    pass


FAULTS = [gen.InjectedFault, Interrupt, ValueError, MemoryError, KeyError, IndexError, TypeError, AttributeError, StopIteration,
          ZeroDivisionError, RuntimeError, SystemExit]


class Faulty:
    """delegates to the model, raises at the k-th query"""

    def __init__(self, fn, types, exc):
        self.fn, self.types, self.exc, self.k, self.fail_at = fn, types, exc, 0, None

    def predict(self, X):
        self.k += 1
        if self.fail_at is not None and self.k == self.fail_at:
            raise self.exc("injected")
        return self.fn(gen.encode(X, self.types))


def work(case_flags, who, model, data, feats, calc, objs):
    if who == "hstat":
        m = objs.setdefault("m", FriedmanHStatisticMethod(normalized=case_flags[0]))
        m.fit(model, data.X, features=feats, pd_calculator=calc, calculate_ova=case_flags[1])
    elif who == "greenwell":
        m = objs.setdefault("m", GreenwellMethod())
        m.fit(model, data.X, features=feats, pd_calculator=calc)
    elif who == "importance":
        m = objs.setdefault("m", PartialDependenceBasedImportance())
        m.importance(model, data.X, features=feats, pd_calculator=calc)
    else:
        m = objs.setdefault("m", AdditivityMeter())
        m.fit(model, data.X, pd_calculator=calc)
    return m


def fault_points(case):
    data = gen.make_data(case, n=case.randint(2, 8), p=case.randint(2, 4), max_uniques=4)
    fn = gen.make_fn(case, data)
    exc = case.choice(FAULTS)
    who = case.choice(["hstat", "hstat", "greenwell", "importance", "additivity"])
    flags = (case.flip(), case.flip(0.8))
    feats = gen.feature_subset(case, data.cols, least=2)
    bs = gen.batchsize(case, data.n, default_p=0.05)
    pd = oracles.PD(fn, data.M)
    setup = gen.Setup(None, None, fn, "predict", 1e-7, None)
    clean = Faulty(fn, data.types, exc)
    work(flags, who, clean, data, feats, PartialDependenceCalculator(clean, data.X, None, **bs), {})
    total = clean.k
    points = range(1, total + 1) if total <= 60 else sorted({int(v) for v in case.rng.integers(1, total + 1, 60)})
    for k in points:
        model = Faulty(fn, data.types, exc)
        calc = PartialDependenceCalculator(model, data.X, None, **bs)
        objs = {}
        model.fail_at = k
        try:
            work(flags, who, model, data, feats, calc, objs)
        except exc:
            case.check(True, "the fault reaches the caller")
        else:
            case.check(False, "a failing prediction reaches the caller", fault_at=k, queries=total)
        # nothing wrong is stored: every value is exact or marked as not available
        verify_all(case, calc, data, pd, {"single": set(), "minus": set(), "pairs": {}}, 1e-7)
        m = work(flags, who, model, data, feats, calc, objs)        # retry the same object with the same calculator
        judge(case, who, m, setup, data, pd, feats, f"after a fault at query {k} of {total} and a retry")
        if case.flip(0.2):
            other = case.choice(["hstat", "greenwell", "importance", "additivity"])
            m2 = work(flags, other, model, data, feats, calc, {})
            judge(case, other, m2, setup, data, pd, feats, f"({other}) with the calculator of a run that failed")
        case.count("fault_points")
    case.note(who=who, queries=total, points=len(points), exception=exc.__name__, batchsize=bs, data=data.describe())
    case.sign(who, total, exc.__name__, data.n, len(data.cols), bs.get("batchsize"))


def performance(case):
    """performance based methods: the fault propagates, data stays intact, a later run is a normal run"""
    data = gen.make_data(case, n=case.randint(3, 8), p=case.randint(2, 4))
    fn = gen.make_fn(case, data)
    y = case.rng.normal(size=data.n)
    exc = case.choice(FAULTS)
    sej = case.flip()
    seed = case.randint(0, 999)

    def go(model):
        if sej:
            m = SejongOhMethod(MSE(), random_state=seed)
            m.fit(model, data.X, y, n_repeat=2)
            return [pair_table(m), feature_table(m.feature_importance)]
        return [feature_table(PermutationImportance(MSE(), random_state=seed).importance(model, data.X, y, n_repeat=2, features=list(data.cols)))]
    clean = Faulty(fn, data.types, exc)
    expected = go(clean)
    X0 = data.X.copy()
    for k in range(1, clean.k + 1):
        model = Faulty(fn, data.types, exc)
        model.fail_at = k
        try:
            go(model)
        except exc:
            case.check(True, "the fault reaches the caller")
        else:
            case.check(False, "a failing prediction reaches the caller", fault_at=k)
        case.check(X0.equals(data.X), "the data is intact after a fault", fault_at=k)
        case.check(go(model) == expected, "a run after a failed one is a normal run", fault_at=k)
        case.count("fault_points")
    case.note(sejong=sej, queries=clean.k)
    case.sign("perf", sej, clean.k, exc.__name__, data.n)


CHECK = Check(
    "C06", "failures of the model never leave wrong values",
    {"fault_points": (fault_points, 110, 3000), "performance": (performance, 24, 400)},
    required={"fault_points": 800, "pd_values_seen": 200},
    rule="for every case the fault is injected at every single query of the run (sampled above 60 queries), with several "
         "exception types including KeyboardInterrupt; distinct by computation, number of queries, exception and shape",
    level="fault_enumeration")
