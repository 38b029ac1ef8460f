"""C04: explaining does not disturb what it explains."""
import numpy as np
import pandas as pd
import matplotlib.pyplot as plt

from rv import gen, realmodels
from rv.common import (AdditivityMeter, ConditionalMinimalDepthMethod, FeatureInteractionMethodComparator, FriedmanHStatisticMethod,
                       GreenwellMethod, PartialDependenceBasedImportance, PartialDependenceCalculator, PermutationImportance,
                       SejongOhMethod, SplitScoreMethod)
from rv.core import Check
from rv.monitors import diff, frame_state, model_state, result_state, rng_state
from artemis._utilities._handler import GBTreesHandler
from artemis._utilities.performance_metrics import MSE
from artemis.importance_methods.model_specific import SplitScoreImportance


def attributes(model):
    """attributes of a recording model (its own counter of queries aside)"""
    return sorted((k, id(v)) for k, v in vars(model).items() if k != "k")


def snapshot(case, things):
    read = {"model": model_state, "own_model": attributes}
    return {k: read.get(k, frame_state)(v) for k, v in things.items()}


def guarded(case, things, action, what):
    before, rng = snapshot(case, things), rng_state()
    action()
    after = snapshot(case, things)
    case.check(not diff(before, after), f"{what} leaves its inputs unchanged", changed=diff(before, after))
    case.check(rng == rng_state(), f"{what} leaves the global random generators unchanged")
    case.count("inputs_compared", len(things))


def agnostic(case):
    data = gen.make_data(case, n=case.randint(3, 14), p=case.randint(2, 5), max_uniques=4)
    setup = gen.make_setup(case, data)
    feats = gen.feature_subset(case, data.cols, least=2)
    feats = list(feats) if feats is not None else list(data.cols)
    y = case.rng.normal(size=data.n)
    y = case.choice([y, pd.Series(y, index=data.X.index), pd.Series(y)])
    n = case.choice([None, None, max(2, data.n - 1), data.n])
    things = {"X": data.X, "features": feats, "y": y, "own_model": setup.model}
    kw = dict(gen.batchsize(case, data.n), **setup.kwargs())
    who = case.choice(["hstat", "greenwell", "importance", "additivity", "sejong", "permutation", "calculator"])
    seed = case.randint(0, 99)
    progress = {"show_progress": case.flip(0.2)}
    repeat = case.choice([1, 2, 2, 2, 110])
    obj = None
    if who == "hstat":
        obj = FriedmanHStatisticMethod(random_state=seed)
        act = lambda: obj.fit(setup.model, data.X, n, features=feats, **kw, **progress)
    elif who == "greenwell":
        obj = GreenwellMethod(random_state=seed)
        act = lambda: obj.fit(setup.model, data.X, n, features=feats, **kw, **progress)
    elif who == "importance":
        obj = PartialDependenceBasedImportance()
        act = lambda: obj.importance(setup.model, data.X, n, features=feats, **kw, **progress)
    elif who == "additivity":
        obj = AdditivityMeter(random_state=seed)
        act = lambda: obj.fit(setup.model, data.X, n, **kw, **progress)
    elif who == "sejong":
        obj = SejongOhMethod(MSE(), random_state=seed)
        act = lambda: obj.fit(gen.Regressor(setup.fn, data.types), data.X, y, n, n_repeat=repeat if len(feats) < 4 else 2, features=feats, **progress)
    elif who == "permutation":
        obj = PermutationImportance(MSE(), random_state=seed)
        act = lambda: obj.importance(gen.Regressor(setup.fn, data.types), data.X, y, n_repeat=repeat, features=feats, **progress)
    else:
        def act():
            c = PartialDependenceCalculator(setup.model, data.X, **kw)
            c.calculate_pd_single(feats)
            c.calculate_pd_pairs(all_combinations=case.flip())
            c.calculate_pd_minus_single(feats)
    if who == "importance" and n is not None:
        # no seed parameter: sampling uses a private generator as well
        pass
    guarded(case, things, act, f"{who}")
    if who in ("hstat", "greenwell", "sejong"):
        readonly_outputs(case, obj, things, who)
        if case.flip(0.4) and len(feats) > 2:
            other = PARTNERS[case.choice(list(PARTNERS))]()
            other.fit(gen.Regressor(setup.fn, data.types), data.X, features=feats[:-1] if case.flip() else feats[::-1])
            together(case, obj, other)
    case.note(who=who, data=data.describe(), n=n)
    case.sign(who, data.n, len(data.cols), n, len(feats), type(y).__name__)


PARTNERS = {"hstat": FriedmanHStatisticMethod, "greenwell": GreenwellMethod}


def together(case, a, b):
    """comparing two methods leaves the results of both unchanged"""
    if min(len(a.ovo), len(b.ovo)) == 0:
        return
    if case.flip():
        a, b = b, a
    before, rng = [result_state(a), result_state(b)], rng_state()
    comp = FeatureInteractionMethodComparator()
    for act in (lambda: comp.comparison_plot(a, b, add_correlation_box=case.flip()), lambda: comp.correlations(a, b), lambda: comp.summary(a, b)):
        act()
        plt.close("all")
        after = [result_state(a), result_state(b)]
        case.check(not diff(before[0], after[0]) and not diff(before[1], after[1]), "comparing leaves the results of both methods unchanged",
                   changed=[diff(p, q) for p, q in zip(before, after)])
        case.check(rng == rng_state(), "comparing leaves the global random generators unchanged")
    case.count("comparisons_of_two")


def readonly_outputs(case, method, things, who, vis=("heatmap", "bar_chart", "graph", "summary")):
    before, inputs, rng = result_state(method), snapshot(case, things), rng_state()
    if len(method.ovo) == 0 or len(set(method.ovo.iloc[:, 0]) | set(method.ovo.iloc[:, 1])) < 2:
        return
    if getattr(method, "ova", None) is not None:
        vis = tuple(vis) + ("bar_chart_ova",)
    for v in vis:
        opts = {"top_k": case.randint(1, 6)} if v.startswith("bar") else {}
        if v == "summary" and case.flip():
            opts = {"heatmap": {"annot_fmt": ".2f"}, "graph": {"n_highest_with_labels": 1}, "bar_chart_ovo": {"top_k": 2}}
        given = repr(opts)
        method.plot(v, **opts)
        plt.close("all")
        case.check(repr(opts) == given, f"plot({v!r}) leaves the given options unchanged", before=given, after=opts)
        case.check(rng == rng_state(), f"plot({v!r}) leaves the global random generators unchanged")
        case.count("plots")
        case.check(not diff(before, result_state(method)), f"plot({v!r}) leaves the results unchanged",
                   changed=diff(before, result_state(method)))
    if who in ("hstat", "greenwell"):
        num = [c for c in method.X_sampled.columns if method.X_sampled[c].nunique() > 1 and
               method.X_sampled[c].dtype.kind in "if"]
        if num:
            method.plot_profile(num[0])
            plt.close("all")
            case.count("plots")
            case.check(not diff(before, result_state(method)), "plot_profile leaves the results unchanged")
        if len(num) > 1 and who == "greenwell":
            method.plot_profile(num[1], num[0])
            plt.close("all")
            case.count("plots")
            case.check(not diff(before, result_state(method)), "plot_profile of a pair leaves the results unchanged")
        if len(num) == len(method.X_sampled.columns) and len(method.ovo) > 1:
            method.plot_zenplot(zenpath_length=case.randint(1, len(method.ovo)))
            plt.close("all")
            case.count("plots")
            case.check(not diff(before, result_state(method)), "plot_zenplot leaves the results unchanged")
        case.check(rng == rng_state(), "profile plots leave the global random generators unchanged")
    first = method.ovo.iloc[0]
    cols = ("root_variable", "variable") if "root_variable" in method.ovo else ("Feature 1", "Feature 2")
    method.interaction_value(first[cols[0]], first[cols[1]])
    if len(method.ovo) > 2:
        comp = FeatureInteractionMethodComparator()
        comp.summary(method, method)
        plt.close("all")
        case.count("comparisons")
    case.check(rng == rng_state(), "lookups and comparisons leave the global random generators unchanged")
    case.check(not diff(before, result_state(method)), "comparison leaves the results unchanged",
               changed=diff(before, result_state(method)))
    case.check(not diff(inputs, snapshot(case, things)), "plots and comparison leave the inputs unchanged",
               changed=diff(inputs, snapshot(case, things)))


def PermutationPartner(case, X, y):
    from sklearn.linear_model import LinearRegression
    m = SejongOhMethod(MSE(), random_state=1)
    names = list(X.columns)
    m.fit(LinearRegression().fit(X, y), X, y, n_repeat=1, features=names[:-1] if case.flip() and len(names) > 2 else names)
    return m


def specific(case):
    X, y = realmodels.numeric_data(case, n=case.randint(20, 50), p=case.randint(2, 4))
    who = case.choice(["cmd", "split", "split_handler", "split_importance"])
    if who == "cmd":
        if case.flip(0.3):
            X[X.columns[0]] = 1.0        # no tree uses it: pairs without a value
        model = realmodels.forest(case, X, y, n_estimators=case.randint(1, 5))
        m = ConditionalMinimalDepthMethod()
        things = {"model": model, "X": X}
        guarded(case, things, lambda: m.fit(model, show_progress=case.flip(0.2)), "conditional minimal depth")
        if case.flip():
            other = PermutationPartner(case, X, y)
            together(case, m, other)
        if len(m.feature_importance) > 1 and not m.ovo[m.method].isna().any():
            readonly_outputs(case, m, things, who, ("heatmap", "bar_chart", "graph", "summary", "bar_chart_conditional"))
    else:
        model, booster, package = realmodels.booster(case, X, y, trees=case.randint(1, 4))
        handler = GBTreesHandler(model)
        things = {"model": model, "X": X, "trees": handler.trees_df}
        metric = case.choice(["sum_gain", "mean_gain", "mean_depth"])
        if who == "split_importance":
            imp = case.choice(["sum_gain", "mean_gain", "mean_depth", "mean_weighted_depth", "root_frequency", "weighted_root_frequency"])
            guarded(case, things, lambda: SplitScoreImportance().importance(handler, selected_metric=imp), "split score importance")
        else:
            m = SplitScoreMethod()
            guarded(case, things, lambda: m.fit(handler if who == "split_handler" else model, interaction_selected_metric=metric,
                                                only_def_interactions=case.flip(0.3)), "split score")
            if len(m.ovo) > 0:
                readonly_outputs(case, m, things, who, ("heatmap", "bar_chart", "graph", "summary", "lollipop"))
    case.note(who=who, columns=list(X.columns), model=type(model).__name__)
    case.sign(who, type(model).__name__, len(X), X.shape[1], case.index % 7)


CHECK = Check(
    "C04", "explaining is read-only",
    {"agnostic": (agnostic, 260, 5000), "specific": (specific, 110, 2000)},
    required={"inputs_compared": 500, "plots": 200, "comparisons": 40, "comparisons_of_two": 25},
    rule="full snapshots (values, types, order, index) of data, target, feature list, model, tree table, global random "
         "generators and result tables around every fit / importance / plot / comparison; distinct by computation and shape")
