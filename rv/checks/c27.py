"""C27: the batch size governs how the model is queried, and nothing else."""
import numpy as np

from rv import gen
from rv.common import (AdditivityMeter, FriedmanHStatisticMethod, GreenwellMethod, PartialDependenceBasedImportance,
                       PartialDependenceCalculator, raw_distinct)
from rv.core import Check

DEFAULT = 2000


def make(case, tall=False):
    n = case.choice([40, 60, 90]) if tall else case.randint(2, 14)
    p, uniques = case.randint(2, 3 if tall else 6), case.choice([3, 6, None])
    if not tall and case.flip(0.12):
        n, p, uniques = case.randint(6, 12), case.randint(8, 14), None
    data = gen.make_data(case, n=n, p=p, max_uniques=uniques)
    rec = gen.Recorder(keep=False)
    sizes = []

    def log(how, X, y):
        sizes.append(len(X))
        rec(how, X, y)
    return data, gen.make_setup(case, data, rec=log), sizes


def batch(case, n):
    if case.flip(0.3):
        return DEFAULT, {}
    b = int(case.choice([1, 2, n - 1 or 1, n, n + 1, 2 * n, 2 * n + 1, 3 * n, 5 * n - 1, 10 * n, 37 * n, 1000, 1999, 2001, 10 ** 6]))
    return b, {"batchsize": b}


def judge(case, sizes, size, block, requests, what, floor=0):
    """sizes of the queries of some requests; block: most rows that are added at once"""
    case.check(all(s <= max(floor, size + block) for s in sizes), "no query grows beyond the batch size by more than one block of requests",
               largest=max(sizes, default=0), batchsize=size, block=block, what=what)
    case.check(sum(s <= size for s in sizes) <= requests, "requests are collected up to the batch size before the model is queried",
               queries=len(sizes), rows=sum(sizes), batchsize=size, requests=requests, what=what, sizes=sizes[:20])
    case.count("queries", len(sizes))
    if len(sizes) > requests:
        case.count("several_batches")


def calculator(case):
    data, setup, sizes = make(case, tall=case.flip(0.15))
    n = data.n
    size, kw = batch(case, n)
    from artemis._utilities.ops import get_predict_function
    calc = PartialDependenceCalculator(setup.model, data.X, get_predict_function(setup.model, setup.predict_function), **kw)
    case.check(not sizes, "nothing is queried before it is asked for")
    distinct = {c: len(raw_distinct(data, j)[0]) for j, c in enumerate(data.cols)}
    done = []
    for _ in range(case.randint(1, 4)):
        op = case.choice(["single", "minus", "pairs_all", "pairs_observed"] if n <= 20 and len(data.cols) < 8 else ["single", "minus", "pairs_observed"])
        feats = gen.feature_subset(case, data.cols, least=2) or data.cols
        del sizes[:]
        if op == "single":
            calc.calculate_pd_single(feats)
            block = n * max(distinct[f] for f in feats)
        elif op == "minus":
            calc.calculate_pd_minus_single(feats)
            block = n * n
        else:
            calc.calculate_pd_pairs([(a, b) for i, a in enumerate(feats) for b in feats[i + 1:]], all_combinations=op == "pairs_all")
            block = n
        judge(case, sizes, size, block, 1, op)
        done.append(op)
    case.sign(n, len(data.cols), tuple(done), size)


def methods(case):
    data, setup, sizes = make(case, tall=case.flip(0.1))
    size, kw = batch(case, data.n)
    feats = gen.feature_subset(case, data.cols, least=2)
    used = data.n
    if case.flip(0.25):
        used = kw["n"] = case.randint(2, data.n)
    who = case.choice(["hstat", "hstat", "greenwell", "importance", "additivity"] if data.n <= 20 and len(data.cols) < 8 else ["hstat", "importance", "additivity"])
    kw.update(setup.kwargs())
    if who == "hstat":
        ova = case.flip()
        FriedmanHStatisticMethod().fit(setup.model, data.X, features=feats, calculate_ova=ova, **kw)
        requests = 5 if ova else 3      # pairs, features, all features for the importance; complements, predictions
    elif who == "greenwell":
        GreenwellMethod().fit(setup.model, data.X, features=feats, **kw)
        requests = 2
    elif who == "importance":
        PartialDependenceBasedImportance().importance(setup.model, data.X, features=feats, **kw)
        requests = 1
    else:
        AdditivityMeter().fit(setup.model, data.X, **kw)
        requests = 2
    block = used * max(used if who == "hstat" else 0, *(min(used, len(raw_distinct(data, j)[0])) for j in range(len(data.cols))))
    judge(case, sizes, size, block, requests, who, floor=used)
    case.sign(data.n, used, len(data.cols), who, size)


CHECK = Check(
    "C27", "the batch size governs the queries",
    {"calculator": (calculator, 200, 5000), "methods": (methods, 140, 3500)},
    required={"queries": 500, "several_batches": 60},
    rule="the sizes of all queries of each request are logged: none exceeds the batch size by more than one block of requests, and there are no more of them "
         "than filled batches plus one; distinct by rows, features, requests and batch size")
