"""C28: progress is shown on request only, and changes nothing else."""
import contextlib
import io
import re
import warnings

from rv import boosters, gen, monitors, realmodels
from rv.common import (AdditivityMeter, ConditionalMinimalDepthMethod, FriedmanHStatisticMethod, GreenwellMethod, PartialDependenceBasedImportance,
                       PartialDependenceCalculator, SejongOhMethod, SplitScoreMethod)
from rv.core import Check, Skip
from artemis._utilities._handler import GBTreesHandler
from artemis._utilities.performance_metrics import RMSE
from artemis.importance_methods.model_agnostic import PermutationImportance
from artemis.importance_methods.model_specific import SplitScoreImportance


class Terminal(io.StringIO):
    def isatty(self):
        return True


def listen(job, *args, **kw):
    stream = kw.pop("stream")
    out, err = stream(), stream()
    with warnings.catch_warnings(), contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        warnings.simplefilter("ignore")
        result = job(*args, **kw)
    return result, out.getvalue(), err.getvalue()


def agnostic_job(case, who):
    wide = case.flip(0.12)
    data = gen.make_data(case, n=4, p=case.randint(12, 18), max_uniques=2) if wide else gen.make_data(case, n=case.randint(3, 12), p=case.randint(2, 5), max_uniques=4)
    feats = gen.feature_subset(case, data.cols, least=12 if wide else 2)
    seed = case.randint(0, 50)
    n = case.randint(2, data.n) if case.flip(0.3) and who != "importance" else None      # its sample is not reproducible
    if who in ("sejong", "permutation"):
        fn = gen.make_fn(case, data)
        model, y, repeat = gen.Regressor(fn, data.types), fn(data.M) + case.rng.normal(size=data.n), case.choice([1, 2, 4])

        def job(**kw):
            if who == "sejong":
                m = SejongOhMethod(RMSE(), random_state=seed)
                m.fit(model, data.X, y, n=n, n_repeat=repeat, features=feats, **kw)
            else:
                m = PermutationImportance(RMSE(), random_state=seed)
                m.importance(model, data.X, y, n_repeat=repeat, features=feats, **kw)
            return m
        return job
    setup = gen.make_setup(case, data)
    size = gen.batchsize(case, data.n)
    if who == "calculator":
        what = case.choice(["single", "pairs", "minus_single"])

        def job(**kw):
            from artemis._utilities.ops import get_predict_function
            calc = PartialDependenceCalculator(setup.model, data.X, get_predict_function(setup.model, setup.predict_function), **size)
            getattr(calc, f"calculate_pd_{what}")(**kw)
            return calc
        return job
    ova = case.flip()

    def job(**kw):
        kw.update(size, n=n, **setup.kwargs())
        if who == "hstat":
            m = FriedmanHStatisticMethod(random_state=seed)
            m.fit(setup.model, data.X, features=feats, calculate_ova=ova, **kw)
        elif who == "greenwell":
            m = GreenwellMethod(random_state=seed)
            m.fit(setup.model, data.X, features=feats, **kw)
        elif who == "importance":
            m = PartialDependenceBasedImportance()
            m.importance(setup.model, data.X, features=feats, **kw)
        else:
            m = AdditivityMeter(random_state=seed)
            m.fit(setup.model, data.X, **kw)
        return m
    return job


def tree_job(case, who):
    X, y = realmodels.numeric_data(case, n=case.randint(20, 60), p=case.randint(2, 4))
    if who == "cmd":
        model = realmodels.forest(case, X, y)
        if all(e.tree_.node_count == 1 for e in model.estimators_):
            raise Skip("forest without splits")

        def job(**kw):
            m = ConditionalMinimalDepthMethod()
            m.fit(model, **kw)
            return m
        return job
    model, booster, package = realmodels.booster(case, X, y)
    if not boosters.splits(booster, package):
        raise Skip("ensemble without splits")
    metric = case.choice(["mean_gain", "sum_gain", "mean_depth"])

    def job(**kw):
        if who == "split":
            m = SplitScoreMethod()
            m.fit(model, interaction_selected_metric=metric, importance_selected_metric=metric, only_def_interactions=False, **kw)
        else:
            m = SplitScoreImportance()
            m.importance(GBTreesHandler(model), selected_metric=metric, **kw)
        return m
    return job


def state(m):
    if isinstance(m, PartialDependenceCalculator):
        return monitors.calc_state(m)
    return monitors.result_state(m)


def progress(case, kinds, make):
    who = case.choice(kinds)
    job = make(case, who)
    asked = [{}, {"show_progress": False}, {"show_progress": True}]
    case.rng.shuffle(asked)
    stream = case.choice([io.StringIO, Terminal])
    seen = []
    for kw in asked:
        m, out, err = listen(job, stream=stream, **kw)
        seen.append(state(m))
        if kw.get("show_progress"):
            case.check(not out, "nothing on standard output", got=out[:200], who=who)
            if who != "split_importance":            # shows progress only where depths have to be found first
                case.check("100%" in err or re.search(r"\d+it", err), "progress is shown up to its end if asked for", got=err[-200:], who=who)
                case.count("bars")
        else:
            case.check(not out and not err, "nothing is printed unless asked for", got=(out + err)[:200], who=who, options=kw)
            case.count("silent")
    case.check(all(s == seen[0] for s in seen[1:]), "results do not depend on progress being shown", who=who)
    case.sign(who, case.index % 50, str(asked))


def agnostic(case):
    progress(case, ["hstat", "greenwell", "importance", "additivity", "sejong", "permutation", "calculator"], agnostic_job)


def trees(case):
    progress(case, ["cmd", "split", "split", "split_importance"], tree_job)


CHECK = Check(
    "C28", "progress is shown on request only",
    {"agnostic": (agnostic, 110, 2500), "trees": (trees, 70, 1500)},
    required={"bars": 60, "silent": 150},
    rule="standard output and error captured around every computation, with progress asked for, refused and left out, in random order; results compared; "
         "distinct by kind and order")
