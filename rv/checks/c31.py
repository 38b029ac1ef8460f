"""C31: computations of separate objects do not interfere, however they are interleaved or nested."""
import os
import sys
import threading

import numpy as np

from rv import boosters, core, gen, monitors, realmodels
from rv.common import (AdditivityMeter, ConditionalMinimalDepthMethod, FriedmanHStatisticMethod, GreenwellMethod, PartialDependenceBasedImportance,
                       PartialDependenceCalculator, SejongOhMethod, SplitScoreMethod)
from rv.core import Check, Skip
from artemis._utilities._handler import GBTreesHandler
from artemis._utilities.ops import get_predict_function
from artemis._utilities.performance_metrics import MSE, RMSE
from artemis.importance_methods.model_agnostic import PermutationImportance
from artemis.importance_methods.model_specific import SplitScoreImportance

AGNOSTIC = ["hstat", "hstat", "greenwell", "importance", "additivity", "sejong", "permutation", "calculator"]
TREES = ["cmd", "split", "split", "split_importance"]


class World:
    """data and model, possibly of several computations"""

    def __init__(self, case, rec=None):
        self.data = gen.make_data(case, n=case.randint(3, 9), p=case.randint(2, 4), max_uniques=4)
        self.setup = gen.make_setup(case, self.data, rec=rec)
        fn = gen.make_fn(case, self.data)
        self.plain = gen.Regressor(fn, self.data.types, rec)
        self.y = fn(self.data.M) + case.rng.normal(size=self.data.n)


def agnostic_job(case, who, w):
    data, setup = w.data, w.setup
    feats = gen.feature_subset(case, data.cols, least=2)
    seed = case.randint(0, 50)
    n = case.randint(2, data.n) if case.flip(0.4) and who != "importance" else None
    repeat = case.choice([1, 2, 4])
    metric = case.choice([RMSE, MSE])
    size = gen.batchsize(case, data.n)
    ova = case.flip()
    plan = [(case.choice(["single", "pairs", "minus_single"]), case.flip()) for _ in range(3)]

    def job():
        if who == "sejong":
            m = SejongOhMethod(metric(), random_state=seed)
            m.fit(w.plain, data.X, w.y, n=n, n_repeat=repeat, features=feats)
            return m
        if who == "permutation":
            m = PermutationImportance(metric(), random_state=seed)
            m.importance(w.plain, data.X, w.y, n_repeat=repeat, features=feats)
            return m
        if who == "calculator":
            m = PartialDependenceCalculator(setup.model, data.X, get_predict_function(setup.model, setup.predict_function), **size)
            for what, some in plan:
                arg = [data.cols[:2]] if what == "pairs" else data.cols[:1]
                getattr(m, f"calculate_pd_{what}")(arg if some else None)
            return m
        kw = dict(size, n=n, **setup.kwargs())
        if who == "hstat":
            m = FriedmanHStatisticMethod(random_state=seed)
            m.fit(setup.model, data.X, features=feats, calculate_ova=ova, **kw)
        elif who == "greenwell":
            m = GreenwellMethod(random_state=seed)
            m.fit(setup.model, data.X, features=feats, **kw)
        elif who == "importance":
            m = PartialDependenceBasedImportance()
            m.importance(setup.model, data.X, features=feats, **kw)
        else:
            m = AdditivityMeter(random_state=seed)
            m.fit(setup.model, data.X, **kw)
        return m
    return job


def tree_job(case, who):
    X, y = realmodels.numeric_data(case, n=case.randint(20, 40), p=case.randint(2, 4))
    if who == "cmd":
        model = realmodels.forest(case, X, y, n_estimators=case.choice([1, 3]), max_depth=3)
        if all(e.tree_.node_count == 1 for e in model.estimators_):
            raise Skip("forest without splits")

        def job():
            m = ConditionalMinimalDepthMethod()
            m.fit(model)
            return m
        return job
    model, booster, package = realmodels.booster(case, X, y, trees=case.choice([1, 3]), depth=case.choice([2, 3]))
    if not boosters.splits(booster, package):
        raise Skip("ensemble without splits")
    metric, only = case.choice(["mean_gain", "sum_gain", "mean_depth"]), case.flip()

    def job():
        if who == "split":
            m = SplitScoreMethod()
            m.fit(model, interaction_selected_metric=metric, importance_selected_metric=metric, only_def_interactions=only)
        else:
            m = SplitScoreImportance()
            m.importance(GBTreesHandler(model), selected_metric=metric)
        return m
    return job


def state(m):
    return monitors.calc_state(m) if isinstance(m, PartialDependenceCalculator) else monitors.result_state(m)


class Interleaver:
    """Runs jobs in threads of which one moves at a time; whenever a thread is about to execute a line of the package, it may have to
    hand over to another one.  Who and when is drawn from the case, so every interleaving can be replayed."""

    def __init__(self, rng, rate):
        self.rng, self.rate, self.turn, self.alive, self.cond = rng, rate, None, [], threading.Condition()
        self.switches, self.trail = 0, []
        self.prefix = core.ARTEMIS_DIR + os.sep

    def hand_over(self, me, leave=False):
        with self.cond:
            if leave:
                self.alive.remove(me)
                if not self.alive:
                    self.turn = None
                    self.cond.notify_all()
                    return
            nxt = self.alive[int(self.rng.integers(len(self.alive)))]
            if nxt == me:
                return
            self.turn = nxt
            self.switches += 1
            if len(self.trail) < 60:
                self.trail.append(nxt)
            self.cond.notify_all()
            if not leave:
                self.wait(me)

    def wait(self, me):
        while self.turn != me:
            if not self.cond.wait(120):
                raise RuntimeError("the interleaver lost its turn")

    def run(self, jobs):
        results, errors = [None] * len(jobs), [None] * len(jobs)

        def tracer(me):
            def local(frame, event, arg):
                if event == "line" and self.rng.random() < self.rate:
                    self.hand_over(me)
                return local

            def start(frame, event, arg):
                return local if frame.f_code.co_filename.startswith(self.prefix) else None
            return start

        def body(me):
            with self.cond:
                self.wait(me)
            try:
                sys.settrace(tracer(me))
                with np.errstate(all="ignore"):
                    results[me] = jobs[me]()
            except BaseException as e:  # noqa: the caller gets it
                errors[me] = e
            finally:
                sys.settrace(None)
                self.hand_over(me, leave=True)
        threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(jobs))]
        self.alive = list(range(len(jobs)))
        for t in threads:
            t.start()
        with self.cond:
            self.turn = int(self.rng.integers(len(jobs)))
            self.cond.notify_all()
        for t in threads:
            t.join()
        for e in errors:
            if e is not None:
                raise e
        return results


def interleave(case, jobs, who):
    alone = [state(j()) for j in jobs]
    for rate in (0.02, case.choice([0.1, 0.3])):
        il = Interleaver(case.rng, rate)
        results = il.run(jobs)
        for k, m in enumerate(results):
            case.check(state(m) == alone[k], "a computation gives the same results alone and interleaved with others", who=who[k], others=who,
                       turns=il.trail)
        case.count("switches", il.switches)
        case.count("interleavings", int(il.switches > 0))
    case.sign(tuple(who), tuple(il.trail))


def agnostic(case):
    who = [case.choice(AGNOSTIC) for _ in range(case.choice([2, 2, 3]))]
    if case.flip(0.3):
        who = [who[0]] * len(who)
    worlds = [World(case)]
    jobs = []
    for k in who:
        if case.flip():
            worlds.append(World(case))
        jobs.append(agnostic_job(case, k, worlds[-1]))
    interleave(case, jobs, who)


def trees(case):
    who = [case.choice(TREES) for _ in range(2)]
    if case.flip(0.4):
        who = [who[0]] * 2
    interleave(case, [tree_job(case, k) for k in who], who)


def nested(case):
    """the prediction function of one computation runs another one"""
    who = case.choice(AGNOSTIC)
    box = {"at": None, "inner": None, "k": 0, "seen": []}

    def rec(how, X, y):
        box["k"] += 1
        if box["inner"] is not None and (box["k"] == box["at"] or box["at"] == 0):
            inner, box["inner"] = box["inner"], None
            try:
                box["seen"].append(state(inner()))
            finally:
                box["inner"] = inner
    outer = agnostic_job(case, who, World(case, rec))
    kind = case.choice([who, case.choice(AGNOSTIC), case.choice(AGNOSTIC), case.choice(TREES)])
    inner = tree_job(case, kind) if kind in TREES else agnostic_job(case, kind, World(case))
    alone, alone_inner = state(outer()), state(inner())
    queries = box["k"]
    for _ in range(3):
        box.update(k=0, inner=inner, at=case.randint(1, queries) if queries > 4 or case.flip(0.7) else 0, seen=[])
        m = outer()
        box["inner"] = None
        case.check(state(m) == alone, "a computation gives the same results if its model runs another one meanwhile", outer=who, inner=kind, at=box["at"])
        case.check(box["seen"] and all(s == alone_inner for s in box["seen"]), "a computation gives the same results within another one",
                   outer=who, inner=kind, at=box["at"])
        case.count("nested")
    case.sign(who, kind, queries)


CHECK = Check(
    "C31", "separate computations do not interfere",
    {"agnostic": (agnostic, 90, 2500), "trees": (trees, 30, 700), "nested": (nested, 70, 2000)},
    required={"interleavings": 100, "switches": 2000, "nested": 100},
    rule="computations of separate objects (with own or common data and models) run in threads that hand over to each other at random lines of the package, one moving at a time, "
         "and inside the prediction functions of others; results compared with those of the same computations alone; distinct by kinds and sequence of turns")
