"""C24: life cycle: results only after a fit, refused requests are named, and a new fit replaces everything of the old one."""
import copy
import itertools

import numpy as np
from matplotlib import pyplot as plt

from rv import anyfit, artists, gen, monitors, realmodels
from rv.common import (AdditivityMeter, ConditionalMinimalDepthMethod, FeatureInteractionMethodComparator, FriedmanHStatisticMethod,
                       GreenwellMethod, PartialDependenceBasedImportance, PartialDependenceCalculator, PermutationImportance,
                       SejongOhMethod, SplitScoreMethod)
from rv.core import Check, Skip
from artemis._utilities._handler import GBTreesHandler
from artemis._utilities.exceptions import (FeatureImportanceWithoutInteractionException, MethodNotFittedException, MetricNotSupportedException,
                                           ModelNotSupportedException, VisualizationNotSupportedException)
from artemis._utilities.performance_metrics import MSE, RMSE
from artemis.importance_methods.model_specific import MinimalDepthImportance, SplitScoreImportance

CLASSES = {"hstat": FriedmanHStatisticMethod, "greenwell": GreenwellMethod, "sejong": SejongOhMethod, "cmd": ConditionalMinimalDepthMethod,
           "split": SplitScoreMethod}
ALL = ["heatmap", "bar_chart", "graph", "summary", "bar_chart_ova", "lollipop", "bar_chart_conditional"]
SUPPORTED = {"hstat": ALL[:5], "greenwell": ALL[:4], "sejong": ALL[:4], "cmd": ALL[:4] + ["bar_chart_conditional"], "split": ALL[:4] + ["lollipop"]}


def must_raise(case, exc, fn, message, **details):
    before = plt.get_fignums()
    try:
        fn()
    except exc as e:
        case.check(str(e), "the refusal has a message")
        case.check(plt.get_fignums() == before or exc is not VisualizationNotSupportedException, "a refused plot leaves no figure behind")
    except Exception as e:      # noqa
        case.check(False, message, raised=f"{type(e).__name__}: {e}", expected=exc.__name__, **details)
    else:
        case.check(False, message, raised=None, expected=exc.__name__, **details)
    case.count("refusals_" + exc.__name__)


def new(kind):
    return CLASSES[kind](MSE()) if kind == "sejong" else CLASSES[kind]()


def unfitted(case):
    kind = case.choice(anyfit.KINDS)
    m = new(kind)
    comp = FeatureInteractionMethodComparator()
    other = anyfit.fit_any(case).m
    todo = {v: (lambda v=v: m.plot(v)) for v in ALL}
    todo.update({
        "plot": lambda: m.plot(), "unknown plot": lambda: m.plot("nonsense"), "value": lambda: m.interaction_value("a", "b"),
        "correlation": lambda: comp.correlation(m, other), "correlation2": lambda: comp.correlation(other, m),
        "correlations": lambda: comp.correlations(m, m), "comparison": lambda: comp.comparison_plot(m, other),
        "comparison2": lambda: comp.comparison_plot(other, m), "summary": lambda: comp.summary(m, other), "summary2": lambda: comp.summary(other, m)})
    if kind in ("hstat", "greenwell"):
        todo.update({"profile": lambda: m.plot_profile("a"), "profile pair": lambda: m.plot_profile("a", "b"), "zenplot": lambda: m.plot_zenplot()})
    for name, fn in todo.items():
        must_raise(case, MethodNotFittedException, fn, "a method that was not fitted says so", request=name, method=kind)
    case.check(m.ovo is None and m.feature_importance is None, "no results before a fit")
    case.sign("unfitted", kind, type(other).__name__, case.index % 5)


def unsupported(case):
    f = anyfit.fit_any(case, options={"ova": case.flip()})
    if not anyfit.plottable(f.m):
        raise Skip("no interactions")
    ova = getattr(f.m, "ova", None)
    for v in ALL + ["nonsense", "", "Heatmap", None, "lolliplot", "bar_chart_ovo"]:
        if v in SUPPORTED[f.kind]:
            if v == "bar_chart_ova" and ova is None:
                must_raise(case, MethodNotFittedException, lambda: f.m.plot(v), "one versus all results that were not calculated are not plotted")
            elif case.flip(0.4):
                f.m.plot(v)
                case.count("supported_plots")
        elif v == "bar_chart_ova" and f.kind == "hstat":
            pass
        else:
            must_raise(case, VisualizationNotSupportedException, lambda: f.m.plot(v), "an unsupported kind of plot is refused", kind=v, method=f.kind)
        plt.close("all")
    case.sign("unsupported", f.kind, ova is None, len(f.m.ovo))


def refused(case):
    X, y = realmodels.numeric_data(case, n=40, p=3)
    model, booster, package = realmodels.booster(case, X, y, package="lightgbm")
    metric = case.choice(["mean_cover", "sum_cover"])
    ok = case.choice(["mean_gain", "sum_gain", "mean_depth"])
    given = GBTreesHandler(model) if case.flip() else model
    must_raise(case, MetricNotSupportedException, lambda: SplitScoreMethod().fit(given, interaction_selected_metric=metric, importance_selected_metric=ok),
               "cover is not available for this package (interactions)", metric=metric)
    must_raise(case, MetricNotSupportedException, lambda: SplitScoreMethod().fit(given, interaction_selected_metric=ok, importance_selected_metric=metric),
               "cover is not available for this package (importance)", metric=metric)
    handler, imp = GBTreesHandler(model), SplitScoreImportance()
    if any(not leaf for leaf in handler.trees_df["leaf"]):
        imp.importance(handler, selected_metric=ok)
        before = imp.feature_importance.copy()
        kw = case.choice([{}, {"trees_df": handler.trees_df}])
        must_raise(case, MetricNotSupportedException, lambda: imp.importance(handler, selected_metric=metric, **kw),
                   "cover is not available for this package (importance alone)", metric=metric)
        case.check(imp.feature_importance.equals(before), "a refused importance leaves the result as it was")
    rf = realmodels.forest(case, X, y)
    for bad in (rf, gen.Regressor(None, {}), object(), "model", X):
        must_raise(case, ModelNotSupportedException, lambda: SplitScoreMethod().fit(bad), "models of other packages are refused", model=type(bad).__name__)
        must_raise(case, ModelNotSupportedException, lambda: GBTreesHandler(bad), "models of other packages are refused", model=type(bad).__name__)
    must_raise(case, FeatureImportanceWithoutInteractionException, lambda: MinimalDepthImportance().importance(rf, None),
               "minimal depth importance needs the depths")
    case.sign("refused", metric, ok, case.index % 10)


def refused_refit(case):
    """a refused fit leaves the results of the last one as they were"""
    kind = case.choice(["split", "split", "hstat", "greenwell"])
    f = anyfit.fit_any(case, kinds=[kind])
    m = f.m
    if not anyfit.plottable(m):
        raise Skip("no interactions")
    twin = copy.deepcopy(m)
    comp = FeatureInteractionMethodComparator()

    def seen():
        v = case_plot
        m.plot(v)
        shown = repr(artists.fingerprint(plt.gcf()))
        plt.close("all")
        return {"tables": [monitors.frame_state(getattr(m, t, None)) for t in ("ovo", "ova", "feature_importance", "full_result", "full_ovo")],
                "values": [anyfit.num(m.interaction_value(a, b)) for a, b in zip(m.ovo.iloc[:, 0], m.ovo.iloc[:, 1])],
                "correlation": repr(comp.correlation(m, twin)), "plot": shown}
    case_plot = case.choice(SUPPORTED[kind][:3])
    before = seen()
    steady = seen()["plot"] == before["plot"]
    if kind == "split":
        X, y = realmodels.numeric_data(case, n=40, p=3)
        if case.flip(0.7):
            other, _, _ = realmodels.booster(case, X, y, package="lightgbm")
            kw = {"interaction_selected_metric": case.choice(["mean_cover", "sum_cover"])} if case.flip(0.6) else \
                {"interaction_selected_metric": case.choice(["mean_gain", "mean_depth"]), "importance_selected_metric": "mean_cover"}
            must_raise(case, MetricNotSupportedException, lambda: m.fit(other, **kw), "cover is not available for this package")
        else:
            rf = realmodels.forest(case, X, y)
            must_raise(case, ModelNotSupportedException, lambda: m.fit(rf, interaction_selected_metric=case.choice(["mean_gain", "mean_depth"])),
                       "models of other packages are refused")
    else:
        setup = f.extra["setup"]
        other = case.choice(["data", "rows", "column", "model"])
        X, model = f.X, setup.model
        if other == "data":
            X = gen.make_data(case, n=5, p=3, max_uniques=3).X
        elif other == "rows":
            X = f.X.iloc[np.roll(np.arange(len(f.X)), 1)]
        elif other == "column":
            X = f.X.copy()
            c = case.choice(list(X.columns))
            X[c] = f.X[c].values[np.roll(np.arange(len(f.X)), 1)]
        else:
            model = copy.copy(model)
        if model is setup.model and X.equals(f.X):
            raise Skip("the same data")
        calc = PartialDependenceCalculator(model, X, *([] if case.flip() else [setup.predict_function]))
        must_raise(case, ValueError, lambda: m.fit(setup.model, f.X, features=list(f.X.columns)[::-1], pd_calculator=calc, **setup.kwargs()),
                   "a calculator of another model or other data is refused", other=other)
    after = seen()
    if not steady:
        before.pop("plot")
    bad = [k for k in before if after[k] != before[k]]
    case.check(not bad, "a refused fit leaves the results as they were", kind=kind, differing=bad, metric=f.extra.get("metric"))
    case.count("refused_refits")
    case.note(kind=kind, plot=case_plot, metric=f.extra.get("metric"))
    case.sign("refused_refit", kind, f.extra.get("metric"), case_plot, case.index % 20)


def retrain(case, model, X, y):
    """-> function that brings the model object into another state, in place, the same one every time"""
    seed = case.randint(0, 10 ** 6)
    if hasattr(model, "estimators_") or hasattr(model, "get_booster") or hasattr(model, "booster_"):
        label = y if type(model).__name__.endswith("Regressor") else (np.arange(len(y)) * 7 + seed) % 3
        if type(model).__name__.endswith("Regressor"):
            label = np.random.default_rng(seed).permutation(y)

        def again():
            model.fit(X, label)
        return again
    return None


def use(case, m, kind):
    """what a user does with a fitted object"""
    for _ in range(case.choice([0, 2, 3])):
        what = case.choice(["plot", "plot", "value", "correlation", "comparison", "profile"])
        if what == "plot" and anyfit.plottable(m):
            v = case.choice(SUPPORTED[kind] if getattr(m, "ova", None) is not None or kind != "hstat" else ALL[:4])
            m.plot(v, **case.choice([{}, {"title": "first"}, {"figsize": (3, 3)}]))
        elif what == "value" and len(m.ovo):
            m.interaction_value(m.ovo.iloc[-1, 0], m.ovo.iloc[-1, 1])
        elif what == "correlation" and len(m.ovo):
            FeatureInteractionMethodComparator().correlations(m, m)
        elif what == "comparison" and anyfit.plottable(m):
            FeatureInteractionMethodComparator().comparison_plot(m, m)
        elif what == "profile" and kind in ("hstat", "greenwell"):
            (m.plot_zenplot if case.flip() else lambda: m.plot_profile(m.features_included[0]))()
        case.count("uses_between_fits")
        plt.close("all")


def views(case, kind, fresh):
    """ways to look at a fitted object; -> list of functions of an object"""
    out = []
    if anyfit.plottable(fresh):
        kinds = SUPPORTED[kind] if getattr(fresh, "ova", None) is not None or kind != "hstat" else ALL[:4]
        for v in [str(v) for v in case.rng.permutation(kinds)[:2]]:
            out.append((v, lambda m, v=v: m.plot(v)))
        if kind in ("hstat", "greenwell"):
            k = [str(c) for c in case.rng.permutation(list(fresh.features_included))[:2]]
            out += [("profile", lambda m: m.plot_profile(k[0])), ("pair", lambda m: m.plot_profile(*k)), ("zenplot", lambda m: m.plot_zenplot())]
            out = [out[i] for i in case.rng.permutation(len(out))[:3]]
    return out


def refit(case):
    """fit on A, then on B: indistinguishable from a fresh object fitted on B"""
    kind = case.choice(anyfit.KINDS + ["meter", "pd_importance", "permutation", "split_importance"])
    runs, last = [], None       # last: data and model of the previous run, which the next one may share in whole or in part
    for _ in range(case.choice([1, 1, 2]) + 1):
        share = case.choice(["none", "data", "data", "both", "changed", "changed", "changed"]) if last else "none"
        if kind in ("cmd", "split", "split_importance"):
            if share == "none":
                X, y = realmodels.numeric_data(case, n=case.randint(20, 50), p=case.randint(2, 5))
            before = lambda: None       # noqa
            if share == "changed":      # the same model object, trained anew
                before = retrain(case, model, X, y)
                if before is None:
                    share = "data"
                    before = lambda: None       # noqa
                else:
                    case.count("retrained")
            if kind == "cmd":
                if share not in ("both", "changed"):
                    model = realmodels.forest(case, X, y)
                last = model
                before()
                if all(e.tree_.node_count == 1 for e in model.estimators_):
                    raise Skip("no splits")
                runs.append(lambda m, model=model, before=before: (before(), m.fit(model)))
            else:
                from rv import boosters
                if share not in ("both", "changed"):
                    model, b, package = realmodels.booster(case, X, y)
                last = model
                before()
                b = model.get_booster() if hasattr(model, "get_booster") else getattr(model, "booster_", model)
                if not boosters.splits(b, package):
                    raise Skip("no splits")
                kw = dict(interaction_selected_metric=case.choice(["mean_gain", "sum_gain", "mean_depth"]),
                          importance_selected_metric=case.choice(["mean_gain", "mean_depth", "root_frequency"]), only_def_interactions=case.flip())
                if kind == "split":
                    runs.append(lambda m, model=model, kw=kw, before=before: (before(), m.fit(model, **kw)))
                else:
                    met = kw["importance_selected_metric"]
                    runs.append(lambda m, model=model, met=met, before=before: (before(), m.importance(GBTreesHandler(model), selected_metric=met)))
            continue
        if share == "none":
            data = gen.make_data(case, n=case.randint(4, 10), p=case.randint(2, 4), max_uniques=4)
        before = lambda: None       # noqa
        case.count("shared_" + share, int(last is not None))
        if share == "none" or last is None or case.flip(0.4):        # often the same features again
            feats = gen.feature_subset(case, data.cols, least=2)
        if kind in ("sejong", "permutation"):
            if share not in ("both", "changed"):
                model = gen.Regressor(gen.make_fn(case, data), data.types)
            if share == "changed":      # the same model object in another state
                fn = gen.make_fn(case, data)
                before = lambda model=model, fn=fn: setattr(model, "fn", fn)       # noqa
            last, y = model, case.rng.normal(size=data.n)
            R = case.choice([1, 3])
            if kind == "sejong":
                runs.append(lambda m, a=(model, data.X, y), kw=dict(features=feats, n_repeat=R), before=before: (before(), m.fit(*a, **kw)))
            else:
                runs.append(lambda m, a=(model, data.X, y), kw=dict(features=feats, n_repeat=R), before=before: (before(), m.importance(*a, **kw)))
            continue
        if share not in ("both", "changed"):
            s = last = gen.make_setup(case, data)
        if share == "changed":      # the model object predicts something else, or the data object holds other values
            if case.flip() and s.predict_function is None:
                fn = gen.make_fn(case, data)
                before = lambda model=s.model, fn=fn: setattr(model, "fn", fn)       # noqa
            else:
                c = case.choice(data.cols)
                v = data.X[c].copy().values[np.roll(np.arange(data.n), 1)]
                X = data.X
                before = lambda X=X, c=c, v=v: X.__setitem__(c, v)       # noqa
        kw = dict(s.kwargs())
        if kind == "hstat":
            kw["calculate_ova"] = case.flip()
        if kind != "meter":
            kw["features"] = feats
        if kind == "pd_importance":
            runs.append(lambda m, a=(s.model, data.X), kw=kw, before=before: (before(), m.importance(*a, **kw)))
        else:
            runs.append(lambda m, a=(s.model, data.X), kw=kw, before=before: (before(), m.fit(*a, **kw)))
    make = {"meter": AdditivityMeter, "pd_importance": PartialDependenceBasedImportance,
            "permutation": lambda: PermutationImportance(Constant()), "split_importance": SplitScoreImportance,
            "sejong": lambda: SejongOhMethod(Constant())}.get(kind) or CLASSES[kind]
    old, fresh = make(), make()
    for r in runs:
        r(old)
        if kind in CLASSES:
            use(case, old, kind)
    runs[-1](fresh)
    a, b = monitors.result_state(old), monitors.result_state(fresh)
    case.check(set(a) == set(b) and not monitors.diff(a, b), "a new fit replaces all results of the old one", kind=kind, differing=monitors.diff(a, b),
               old=getattr(old, "ovo", None), fresh=getattr(fresh, "ovo", None))
    if kind in CLASSES and len(fresh.ovo):
        for p, q in zip(fresh.ovo.iloc[:, 0], fresh.ovo.iloc[:, 1]):
            u, v = anyfit.num(old.interaction_value(p, q)), anyfit.num(fresh.interaction_value(p, q))
            case.check(u == v or np.isnan(u) and np.isnan(v), "values of pairs are those of the last fit")
        comp = FeatureInteractionMethodComparator()
        got, want = comp.correlations(old, fresh)["value"].values.astype(float), comp.correlations(fresh, fresh)["value"].values.astype(float)
        case.check(np.array_equal(got, want, equal_nan=True), "comparisons are about the last fit", got=got.tolist(), expected=want.tolist())
    for v, look in views(case, kind, fresh) if kind in CLASSES else []:
        shown = []
        for m in (fresh, fresh, old):
            look(m)
            shown.append(artists.fingerprint(plt.gcf()))
            plt.close("all")
        if repr(shown[0]) == repr(shown[1]):
            case.count("plots_compared")
            case.check(repr(shown[0]) == repr(shown[2]), "plots after a new fit are those of a fresh object", kind=kind, plot=v)
    case.count("refits_" + kind)
    case.note(kind=kind, fits=len(runs))
    case.sign(kind, len(runs), case.index)


class Constant(MSE):
    """a score that depends on the data but not on the permutation, so that results of two generators can be compared"""

    def calculate(self, y_true, y_hat):
        return float(np.sum(np.asarray(y_true))) + 0.25 * float(np.round(np.sum(np.sort(y_hat)) * 0, 6))


CHECK = Check(
    "C24", "life cycle of methods",
    {"unfitted": (unfitted, 50, 600), "unsupported": (unsupported, 60, 900), "refused": (refused, 24, 300), "refused_refit": (refused_refit, 60, 900), "refit": (refit, 220, 4000)},
    required=dict({"shared_data": 15, "shared_both": 15, "shared_changed": 20, "retrained": 5, "uses_between_fits": 100}, **{"refits_" + k: 8 for k in anyfit.KINDS + ["meter", "pd_importance", "permutation", "split_importance"]},
                  refusals_MethodNotFittedException=400, refusals_VisualizationNotSupportedException=150, refusals_MetricNotSupportedException=30,
                  refusals_ModelNotSupportedException=100, supported_plots=50, refused_refits=25, plots_compared=40),
    rule="every request on objects that were not fitted, every kind of plot on every method, unsupported models and metrics, and sequences of fits "
         "on one object compared with a fresh object; distinct by method, request sequence and data")
