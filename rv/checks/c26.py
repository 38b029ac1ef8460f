"""C26: the scikit-learn based visualizer shows the partial dependence of its model on its data."""
import numpy as np
from matplotlib import pyplot as plt
from scipy.stats.mstats import mquantiles
from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin

from rv import artists, monitors, realmodels
from rv.checks.c23 import filled_contours, judge_contours
from rv.core import Check, Skip
from artemis.visualizer import PartialDependenceVisualizer


class _Own(BaseEstimator):
    """an estimator with known outputs"""

    def __init__(self, fn=None, names=()):
        self.fn, self.names = fn, names

    def __sklearn_is_fitted__(self):
        return True

    def fit(self, X, y=None):
        return self

    def value(self, X):
        return np.asarray(self.fn(np.column_stack([np.asarray(X[c], dtype=float) for c in self.names])), dtype=float)


class OwnRegressor(RegressorMixin, _Own):
    def predict(self, X):
        return self.value(X)


class OwnClassifier(ClassifierMixin, _Own):
    classes_ = np.array([0, 1])

    def predict_proba(self, X):
        p = 1 / (1 + np.exp(-np.clip(self.value(X), -30, 30)))
        return np.column_stack([1 - p, p])

    def decision_function(self, X):
        return self.value(X)

    def predict(self, X):
        return (self.value(X) > 0).astype(int)


def make_model(case, X, y):
    from sklearn.ensemble import GradientBoostingRegressor
    from sklearn.linear_model import LinearRegression, LogisticRegression
    from sklearn.svm import SVR
    kind = case.choice(["own", "own", "own_classifier", "linear", "svr", "forest", "boosting", "logistic"])
    classes = (y > np.median(y)).astype(int)
    if kind in ("own", "own_classifier"):
        fn = case.rng.normal(size=X.shape[1])
        i, j = case.rng.integers(0, X.shape[1], 2)
        w = float(case.rng.normal())
        return (OwnRegressor if kind == "own" else OwnClassifier)(_Fn(fn, i, j, w), list(X.columns))
    if kind == "linear":
        return LinearRegression().fit(X, y)
    if kind == "svr":
        return SVR().fit(X, y)
    if kind == "boosting":
        return GradientBoostingRegressor(n_estimators=4, random_state=0).fit(X, y)
    if kind == "logistic":
        return LogisticRegression().fit(X, classes)
    return realmodels.forest(case, X, y, n_estimators=3)


class _Fn:
    def __init__(self, coef, i, j, w):
        self.coef, self.i, self.j, self.w = coef, i, j, w

    def __call__(self, M):
        return M @ self.coef + self.w * M[:, self.i] * M[:, self.j] + np.sin(M[:, 0])


def response(model, X, target, how):
    """what the curves are about: predictions, or the probability (score) of a class"""
    if not hasattr(model, "classes_"):
        return np.asarray(model.predict(X), dtype=float)
    if how == "decision_function":
        return np.asarray(model.decision_function(X), dtype=float)
    P = np.asarray(model.predict_proba(X), dtype=float)
    return P[:, 1] if len(model.classes_) == 2 else P[:, list(model.classes_).index(target)]


def grid_of(X, c, resolution, percentiles):
    v = np.unique(X[c].values.astype(float))
    if len(v) < resolution:
        return v
    lo, hi = mquantiles(X[c].values.astype(float), prob=percentiles)
    if np.allclose(lo, hi):
        raise Skip("scikit-learn refuses the percentiles")
    return np.linspace(lo, hi, resolution)


def curves(model, X, names, grids, target, how):
    """individual predictions, rows x grid points"""
    shape = [len(g) for g in grids]
    out = np.empty([len(X)] + shape)
    for pos in np.ndindex(*shape):
        Z = X.copy()
        for c, g, k in zip(names, grids, pos):
            Z[c] = g[k]
        out[(slice(None),) + pos] = response(model, Z, target, how)
    return out


def reference(model, X, names, resolution, percentiles):
    from sklearn.inspection import partial_dependence
    return partial_dependence(model, X, names, grid_resolution=resolution, percentiles=percentiles, method="auto", kind="average")["average"][0]


def lines_of(ax):
    return [(np.asarray(l.get_xdata(), dtype=float), np.asarray(l.get_ydata(), dtype=float)) for l in ax.lines if l.get_visible()]


def same_rows(case, got, exp, message, atol):
    """equal as multisets of curves"""
    case.check(got.shape == exp.shape, message + " (how many)", got=got.shape, expected=exp.shape)
    left = list(range(len(exp)))
    for g in got:
        d = [np.abs(exp[i] - g).max() for i in left]
        k = int(np.argmin(d))
        case.check(d[k] <= atol, message, off=float(d[k]))
        left.pop(k)


def draw(case, viz, model, X):
    cols = list(X.columns)
    opts = {}
    resolution, percentiles, target, how, kind = 100, (0.05, 0.95), None, "auto", "average"
    multi = hasattr(model, "classes_") and len(model.classes_) > 2
    if multi:
        target = opts["target"] = model.classes_[case.randint(0, len(model.classes_) - 1)]
    if case.flip(0.75):
        resolution = opts["grid_resolution"] = case.choice([2, 3, 5, 7, 10, 20, 30])
    if case.flip(0.3):
        percentiles = opts["percentiles"] = case.choice([(0, 1), (0.1, 0.8), (0.25, 0.75)])
    if case.flip(0.3):
        kind = opts["kind"] = case.choice(["average", "individual", "both"])
    if kind == "average":
        opts["method"] = case.choice(["brute", "brute", "auto"])
        if type(model).__name__.startswith("GradientBoosting"):
            opts["method"] = "brute"          # the recursive method leaves out the initial prediction
    elif case.flip():
        opts["subsample"] = case.choice([5, 0.5, None])
        opts["random_state"] = case.randint(0, 99)
    if hasattr(model, "decision_function") and hasattr(model, "classes_") and case.flip():
        how = opts["response_method"] = "decision_function"
    elif hasattr(model, "classes_") and case.flip():
        opts["response_method"] = "predict_proba"
    asked = []
    for _ in range(case.choice([1, 1, 1, 2, 3, 4])):
        two = kind == "average" and resolution <= 10 and case.flip(0.35)
        asked.append([str(c) for c in case.rng.permutation(cols)[:2 if two else 1]])
    by_position = case.flip(0.3)
    what = []
    for names in asked:
        spec = [cols.index(c) for c in names] if by_position else names
        what.append(tuple(spec) if len(spec) == 2 else spec[0])
    grids = [[grid_of(X, c, resolution, percentiles) for c in names] for names in asked]
    if how == "decision_function" and any(np.prod([len(v) for v in g]) == 2 for g in grids):
        raise Skip("scikit-learn takes two scores for two classes")
    truth = [curves(model, X, names, g, target, how) for names, g in zip(asked, grids)]
    for names, t in zip(asked, truth):
        if len(names) == 2 and np.ptp(t.mean(axis=0)) <= 1e-4 * (1 + abs(t).max()):
            raise Skip("scikit-learn draws no contours of a constant")
    title, figsize = "Partial Dependence", (12, 6)
    if case.flip():
        title = opts["title"] = case.choice(["", "PDP", "of a & b", "Partial  dependence"])
    if case.flip():
        figsize = opts["figsize"] = case.choice([(5, 4), (12, 4.5), (8, 8)])
    if case.flip(0.3):
        opts["n_cols"] = case.choice([1, 2, 3])
    style = case.flip(0.3) and kind == "average"
    if style:
        opts["line_kw"] = {"color": "red"}
    old = plt.get_fignums()
    positional = case.flip(0.3) and "grid_resolution" in opts
    given = list(what)
    if positional:
        viz.plot(what, opts.pop("grid_resolution"), **opts)
    else:
        viz.plot(what, **opts)
    case.check(what == given, "the list of features is not modified")
    figs = [f for f in plt.get_fignums() if f not in old]
    case.check(len(figs) == 1, "one new figure", got=len(figs))
    fig = plt.figure(figs[0])
    case.close(fig.get_size_inches(), figsize, "size of the figure")
    titles = [a.get_title() for a in fig.axes if a.get_title()] + ([fig._suptitle.get_text()] if fig._suptitle is not None and fig._suptitle.get_text() else [])
    case.check(titles == ([title] if title else []), "title", got=titles, expected=title)
    axes = [a for a in fig.axes if a.axison]
    case.check(len(axes) < 2 or not any(a.get_title() for a in axes), "the title belongs to the whole figure, not to one of its pictures", got=titles)
    case.check(len(axes) == len(asked), "one picture per feature or pair asked for", got=len(axes), expected=len(asked))
    scale = 1 + max(float(abs(t).max()) for t in truth)
    rtol = 1e-5 if opts.get("method") == "auto" else 1e-8    # the recursive method works on single precision
    # a forest: the recursive method weighs the training data instead
    recursive = opts.get("method") == "auto" and hasattr(model, "estimators_") and not hasattr(model, "classes_")
    for ax, names, g, t in zip(axes, asked, grids, truth):
        case.check(ax.get_xlabel() == names[0], "the axis names the feature", got=ax.get_xlabel(), expected=names)
        if len(names) == 2:
            case.check(ax.get_ylabel() == names[1], "the axis names the second feature", got=ax.get_ylabel(), expected=names)
            pictures = filled_contours(ax)
            case.check(len(pictures) == 1, "filled contours of the pair")
            average = reference(model, X, names, resolution, percentiles) if recursive else t.mean(axis=0)
            problem = judge_contours(pictures[0], g[0], g[1], average.T)
            case.check(problem is None, "joint partial dependence of the model", problem=problem, pair=names)
            case.count("pairs")
            continue
        got = lines_of(ax)
        average = reference(model, X, names, resolution, percentiles) if recursive else t.mean(axis=0)
        for x, _ in got:
            case.close(x, g[0], "grid of the feature", rtol=1e-9, atol=1e-12)
        if kind in ("individual", "both"):
            count = len(t)
            if opts.get("subsample") is not None:
                s = opts["subsample"]
                count = min(s, len(t)) if isinstance(s, int) else int(np.ceil(len(t) * s))
            ice = [y for _, y in got]
            if kind == "both":
                case.close(ice.pop(), average, "partial dependence of the model", rtol=rtol, atol=rtol * scale)
            case.check(len(ice) == count, "number of individual curves", got=len(ice), expected=count)
            if count == len(t):
                same_rows(case, np.array(ice), t, "individual curves of the rows", 1e-8 * scale)
            else:
                for y in ice:
                    case.check(np.abs(t - y).max(axis=1).min() <= 1e-8 * scale, "an individual curve is that of a row")
            case.count("individual")
        else:
            case.check(len(got) == 1, "one line", got=len(got))
            case.close(got[0][1], average, "partial dependence of the model", rtol=rtol, atol=rtol * scale, feature=names[0])
            case.count("recursive" if recursive else "curves")
            if style:
                case.check(ax.lines[0].get_color() == "red", "options of the line")
    return (tuple(map(tuple, asked)), resolution, kind, by_position, how)


def pictures(case):
    X, y = realmodels.numeric_data(case, n=case.choice([12, 25, 40, 110] * 3 + [520, 900]), p=case.choice([2, 3, 4]))
    if case.flip(0.3):
        X.index = case.rng.permutation(len(X)) * 3 + 7
    model = make_model(case, X, y)
    before, mbefore = monitors.frame_state(X), monitors.model_state(model)
    viz = PartialDependenceVisualizer(model, X)
    sig = draw(case, viz, model, X)
    if case.flip(0.4):
        other, oy = realmodels.numeric_data(case, n=20, p=len(X.columns))
        omodel = make_model(case, other, oy)
        oviz = PartialDependenceVisualizer(omodel, other)
        first = artists.fingerprint(plt.gcf())
        fig = plt.gcf()
        draw(case, oviz, omodel, other)
        draw(case, viz, model, X)
        case.check(artists.fingerprint(fig) == first, "an earlier figure stays as it was")
        case.count("repeated")
    case.check(monitors.frame_state(X) == before, "the data is not modified")
    case.check(monitors.model_state(model) == mbefore, "the model is not modified")
    case.check(viz.model is model and viz.X is X, "the visualizer keeps its model and data")
    plt.close("all")
    case.sign(type(model).__name__, X.shape, *sig)


CHECK = Check(
    "C26", "the partial dependence visualizer shows its model on its data",
    {"pictures": (pictures, 150, 3000)},
    required={"curves": 60, "pairs": 15, "individual": 20, "repeated": 20, "recursive": 1},
    rule="lines and contours of the new figure read back and compared with brute-force partial dependence and individual curves on a grid "
         "computed here; distinct by model class, shape of the data, features and options")
