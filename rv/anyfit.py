"""Fits one interaction method of any kind on a random workload, and reads its result in one uniform shape."""
import numpy as np

from . import boosters, gen, realmodels
from .common import (ConditionalMinimalDepthMethod, FriedmanHStatisticMethod, GreenwellMethod, SejongOhMethod, SplitScoreMethod)
from .core import Skip
from artemis._utilities.performance_metrics import MSE, RMSE

KINDS = ["hstat", "greenwell", "sejong", "cmd", "split"]


class Fitted:
    def __init__(self, kind, m, names, features, X=None, **extra):
        self.kind, self.m, self.names, self.features, self.X = kind, m, list(names), list(features), X
        self.extra = extra
        self.directed = kind == "cmd"
        self.f1, self.f2 = ("root_variable", "variable") if kind == "cmd" else ("Feature 1", "Feature 2")
        # smaller is stronger
        self.ascending = kind == "cmd" or (kind == "split" and extra.get("metric") == "mean_depth")
        self.importance_ascending = kind == "cmd" or (kind == "split" and extra.get("imp_metric") in ("mean_depth", "mean_weighted_depth"))

    def rows(self):
        """rows of the result table, in the order of the table"""
        t = self.m.ovo
        return [(a, b, num(v)) for a, b, v in zip(t[self.f1], t[self.f2], t[self.m.method])]

    def importance(self):
        t = self.m.feature_importance
        return {a: num(v) for a, v in zip(t["Feature"], t["Importance"])}

    def strengths(self):
        """{unordered pair: value}: mean of the directions for conditional minimal depth, the strongest for split score"""
        out = {}
        for a, b, v in self.rows():
            out.setdefault(frozenset((a, b)), []).append(v)
        if self.kind == "cmd":
            return {k: float(np.mean([x for x in v if not np.isnan(x)])) if not all(np.isnan(v)) else float("nan") for k, v in out.items()}
        best = min if self.ascending else max
        return {k: best(v) for k, v in out.items()}


def plottable(m):
    """at least one pair of two features has a value"""
    t = m.ovo
    return any(a != b and not np.isnan(num(v)) for a, b, v in zip(t.iloc[:, 0], t.iloc[:, 1], t[m.method]))


def num(v):
    return float("nan") if v is None else float(v)


def fit_kind(case, kind, X=None, y=None, p=None, names=None, mixed=False, n_rows=None, options=None):
    """-> Fitted.  X, y: shared numeric data (needed to compare methods on the same features)."""
    options = dict(options or {})
    if kind in ("cmd", "split"):
        if X is None:
            X, y = realmodels.numeric_data(case, n=n_rows, p=p or case.choice([2, 3, 4, 5, 6]), names=names)
        if kind == "cmd":
            model = realmodels.forest(case, X, y)
            if all(e.tree_.node_count == 1 for e in model.estimators_):
                raise Skip("forest without splits")
            m = ConditionalMinimalDepthMethod()
            m.fit(model, show_progress=case.flip(0.05))
            return Fitted(kind, m, X.columns, X.columns, X, model=model)
        model, booster, package = realmodels.booster(case, X, y)
        if not boosters.splits(booster, package):
            raise Skip("ensemble without splits")
        metrics = ["mean_gain", "sum_gain", "mean_depth"] + (["mean_cover", "sum_cover"] if package == "xgboost" else [])
        imps = metrics + ["mean_weighted_depth", "root_frequency", "weighted_root_frequency"]
        metric, imp = options.get("metric") or case.choice(metrics), case.choice(imps)
        only = options.get("only_def", case.flip(0.4))
        m = SplitScoreMethod()
        m.fit(model, interaction_selected_metric=metric, importance_selected_metric=imp, only_def_interactions=only,
              show_progress=case.flip(0.05))
        if len(m.ovo) == 0:
            raise Skip("no interactions in the ensemble")
        return Fitted(kind, m, X.columns, X.columns, X, metric=metric, imp_metric=imp, only_def=only, booster=booster, package=package,
                      model=model)
    if X is None:
        data = gen.make_data(case, n=n_rows or case.randint(6, 16), p=p or case.choice([2, 3, 4, 5, 6]), max_uniques=5, names=names,
                             kinds=None if mixed else gen.NUM_KINDS)
    else:
        data = gen.Data(X, {c: "num" for c in X.columns})
    feats = options["features"] if "features" in options else gen.feature_subset(case, data.cols, least=2)
    kw = {} if feats is None else {"features": feats}
    use = feats or data.cols
    seed = case.choice([None, 3, 17])
    if kind == "sejong":
        fn = gen.make_fn(case, data)
        m = SejongOhMethod(case.choice([MSE(), RMSE()]), random_state=seed)
        noise = case.rng.normal(size=data.n)
        m.fit(gen.Regressor(fn, data.types), data.X, fn(data.M) + noise, n_repeat=case.choice([1, 2, 3]), **kw)
        return Fitted(kind, m, data.cols, use, data.X, data=data)
    setup = gen.make_setup(case, data)
    cls = FriedmanHStatisticMethod if kind == "hstat" else GreenwellMethod
    m = cls(random_state=seed, **({"normalized": case.flip()} if kind == "hstat" else {}))
    if kind == "hstat":
        kw["calculate_ova"] = options.get("ova", case.flip(0.6))
    m.fit(setup.model, data.X, **setup.kwargs(), **kw)
    return Fitted(kind, m, data.cols, use, data.X, data=data, setup=setup)


def fit_any(case, kinds=KINDS, **kw):
    return fit_kind(case, case.choice(list(kinds)), **kw)
