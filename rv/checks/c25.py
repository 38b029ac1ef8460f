"""C25: relations between runs (metamorphic): real models, dummy features, permutations, renaming, rescaling."""
import numpy as np
import pandas as pd

from rv import boosters, gen, oracles, realmodels, tables
from rv.common import (AdditivityMeter, ConditionalMinimalDepthMethod, FriedmanHStatisticMethod, GreenwellMethod,
                       PartialDependenceBasedImportance, SejongOhMethod, SplitScoreMethod, compare_tables, feature_table,
                       pair_table, unordered)
from rv.core import Check, Skip
from artemis._utilities.performance_metrics import MSE


class Numbers:
    """every partial dependence based result of one (model, data)"""

    def __init__(self, case, model, X, features=None, seed=None, **kw):
        f = {} if features is None else {"features": features}
        h = FriedmanHStatisticMethod(random_state=seed)
        h.fit(model, X, **f, **kw)
        u = FriedmanHStatisticMethod(random_state=seed, normalized=False)
        u.fit(model, X, calculate_ova=True, **f, **kw)
        g = GreenwellMethod(random_state=seed)
        g.fit(model, X, **f, **kw)
        self.h, self.hova = unordered(pair_table(h)), feature_table(h.ova, h.method)
        self.u, self.uova = unordered(pair_table(u)), feature_table(u.ova, u.method)
        self.g = unordered(pair_table(g))
        self.imp = feature_table(g.feature_importance)
        self.imp2 = feature_table(PartialDependenceBasedImportance().importance(model, X, **({"features": features} if features else {}), **kw))
        self.add = float(AdditivityMeter(random_state=seed).fit(model, X, **kw))
        self.methods = h, u, g
        case.count("fits", 5)

    TABLES = ("h", "hova", "u", "uova", "g", "imp", "imp2")

    def all(self):
        return dict({(t, k): v for t in self.TABLES for k, v in getattr(self, t).items()}, add=self.add)


def close(case, a, b, what, scale, gray, rtol=1e-6, factor=1.0):
    """two Numbers; normalised values only where they are not decided by rounding noise"""
    for t in Numbers.TABLES:
        x, y = getattr(a, t), getattr(b, t)
        case.check(set(x) == set(y), f"{what}: the same entries", table=t)
        for k in x:
            norm = t in ("h", "hova")
            if norm and (t, k) in gray:
                case.count("gray_skipped")
                continue
            want = y[k] * (1 if norm else factor)
            tol = rtol * max(1, abs(want)) if norm else rtol * max(scale, abs(want))
            case.check(abs(x[k] - want) <= tol, f"{what}: {t}", key=sorted(k) if isinstance(k, frozenset) else k, observed=x[k], expected=want)
            case.count("nonzero_relations", int(abs(want) > 1e-6 * (1 if norm else max(scale, 1e-9))))
    if "add" not in gray:
        case.check(abs(a.add - b.add) <= rtol * max(1, abs(b.add)), f"{what}: additivity", observed=a.add, expected=b.add)


def grays(pd, data, feats):
    g = set()
    for k, v in tables.expected_h(data, pd, feats).items():
        if isinstance(v, (str, oracles.Uncertain)) or v == 0.0:
            g.add(("h", k))
    for k, v in tables.expected_ova(data, pd, feats).items():
        if isinstance(v, (str, oracles.Uncertain)) or v == 0.0:
            g.add(("hova", k))
    if isinstance(oracles.additivity(pd), (str, oracles.Uncertain)) or oracles.additivity(pd) == 1.0:
        g.add("add")
    return g


def numeric(X):
    return gen.Data(X, {c: "num" for c in X.columns})


def real(case):
    """real models of four packages against the definitions"""
    X, y = realmodels.numeric_data(case, n=case.randint(8, 22), p=case.randint(2, 4))
    kind = case.choice(["linear", "rf", "gb", "svr", "logistic", "rfc", "xgb", "lgbm", "pipeline"])
    from sklearn.ensemble import GradientBoostingRegressor, RandomForestClassifier, RandomForestRegressor
    from sklearn.linear_model import LinearRegression, LogisticRegression
    from sklearn.pipeline import make_pipeline
    from sklearn.preprocessing import StandardScaler
    from sklearn.svm import SVR
    lab = (y > np.median(y)).astype(int)
    seed = case.randint(0, 10 ** 6)
    rtol = 1e-7
    if kind == "linear":
        model = LinearRegression().fit(X, y)
    elif kind == "rf":
        model = RandomForestRegressor(n_estimators=4, random_state=seed).fit(X, y)
    elif kind == "gb":
        model = GradientBoostingRegressor(n_estimators=6, random_state=seed).fit(X, y)
    elif kind == "svr":
        model = SVR(C=10).fit(X, y)
    elif kind == "logistic":
        model = LogisticRegression().fit(X, lab)
    elif kind == "rfc":
        model = RandomForestClassifier(n_estimators=5, max_depth=3, random_state=seed).fit(X, lab)
    elif kind == "pipeline":
        model = make_pipeline(StandardScaler(), SVR(C=3)).fit(X, y)
    elif kind == "xgb":
        import xgboost as xgb
        model = xgb.XGBRegressor(n_estimators=5, max_depth=3, random_state=seed, n_jobs=1, verbosity=0).fit(X, y)
        rtol = 2e-4
    else:
        import lightgbm as lgb
        model = lgb.LGBMRegressor(n_estimators=5, min_child_samples=1, num_leaves=5, random_state=seed, n_jobs=1, verbose=-1).fit(X, y)
    proba = hasattr(model, "predict_proba")

    def fn(M):
        F = pd.DataFrame(M, columns=X.columns)
        return np.asarray(model.predict_proba(F)[:, 1] if proba else model.predict(F), dtype=float)
    data = numeric(X)
    ref = oracles.PD(fn, data.M, rtol)
    feats = gen.feature_subset(case, data.cols, least=2)
    use = feats or data.cols
    kw = gen.batchsize(case, data.n)
    n = Numbers(case, model, X, feats, **kw)
    h, u, g = n.methods
    tables.judge_h(case, h, data, ref, use, True, rtol, what=f"({kind})")
    tables.judge_h(case, u, data, ref, use, False, rtol, what=f"({kind}, unnormalised)")
    tables.judge_greenwell(case, g, data, ref, use, rtol, what=f"({kind})")
    tables.judge_importance(case, g.feature_importance, data, ref, use, rtol, what=f"({kind})")
    r, a = tables.tolerances(ref, rtol, True)
    compare_tables(case, {"index": n.add}, {"index": oracles.additivity(ref)}, f"additivity index ({kind})", r, a)
    case.count("real_" + kind)
    case.note(model=kind, data=data.describe(), additivity=n.add)
    case.sign("real", kind, data.n, tuple(use))


def typed(case):
    """models that depend on the types of the columns: categories, booleans, integers"""
    X, y = realmodels.numeric_data(case, n=case.randint(8, 20), p=case.randint(2, 4))
    types = {c: "num" for c in X.columns}
    n = len(X)
    for c in X.columns:
        k = case.choice(["float", "category", "category", "bool", "int", "string"])
        if k == "category":
            v = pd.Categorical(case.rng.choice(["u", "v", "w"], n), ordered=case.flip(0.3))
            X[c], types[c] = v.remove_unused_categories(), "cat"
        elif k == "string":
            X[c], types[c] = case.rng.choice(["low", "mid", "high"], n).astype(object), "cat"
        elif k == "bool":
            X[c], types[c] = case.rng.integers(0, 2, n).astype(bool), "bool"
        elif k == "int":
            X[c] = case.rng.integers(0, 4, n)
    y = y + sum((gen.encode(X, types) ** 2).T * case.rng.normal(size=(X.shape[1], 1)))
    kind = case.choice(["lgbm", "pipeline", "pipeline"])
    if kind == "lgbm":
        import lightgbm as lgb
        for c in X.columns:
            if X[c].dtype == object:
                X[c] = X[c].astype("category")
        model = lgb.LGBMRegressor(n_estimators=5, min_child_samples=1, num_leaves=5, random_state=1, n_jobs=1, verbose=-1, min_data_per_group=1,
                                  cat_smooth=1.0).fit(X, y)
    else:
        from sklearn.compose import ColumnTransformer, make_column_selector
        from sklearn.ensemble import RandomForestRegressor
        from sklearn.pipeline import make_pipeline
        from sklearn.preprocessing import OneHotEncoder
        # columns are chosen by type when the pipeline is fitted, encoded by value
        enc = ColumnTransformer([("hot", OneHotEncoder(), make_column_selector(dtype_include=["category", "object"]))], remainder="passthrough")
        model = make_pipeline(enc, RandomForestRegressor(n_estimators=4, random_state=1)).fit(X, y)
    data = gen.Data(X, types)
    back = {c: {gen.code_of(w): w for w in set(X[c].astype(object))} for c in X.columns if types[c] == "cat"}
    dtypes = dict(X.dtypes)

    def frame(M):
        F = pd.DataFrame({c: [back[c][v] for v in M[:, j]] if c in back else M[:, j] for j, c in enumerate(X.columns)})
        return F.astype(dtypes)

    def fn(M):
        return np.asarray(model.predict(frame(M)), dtype=float)

    seen = []

    def predict(m, Q):
        seen.append(dict(Q.dtypes))
        return m.predict(Q)
    ref = oracles.PD(fn, data.M)
    n_ = Numbers(case, model, X, **({"predict_function": predict} if case.flip() else {}), **gen.batchsize(case, data.n))
    h, u, g = n_.methods
    tables.judge_h(case, h, data, ref, data.cols, True, 1e-7, what=f"({kind} by type)")
    tables.judge_h(case, u, data, ref, data.cols, False, 1e-7, what=f"({kind} by type, unnormalised)")
    tables.judge_greenwell(case, g, data, ref, data.cols, 1e-7, what=f"({kind} by type)")
    tables.judge_importance(case, g.feature_importance, data, ref, data.cols, 1e-7, what=f"({kind} by type)")
    case.check(all(d == dtypes for d in seen), "queries have the column types of the data")
    y2 = case.rng.normal(size=len(X))
    SejongOhMethod(MSE(), random_state=1).fit(model, X, y2, n_repeat=1)
    case.count("typed_" + kind)
    case.sign("typed", kind, data.n, tuple(map(str, X.dtypes)))


def base_case(case, mixed=True, p=None):
    data = gen.make_data(case, n=case.randint(4, 12), p=p or case.randint(2, 5), max_uniques=5, kinds=None if mixed else gen.NUM_KINDS)
    fn = gen.make_fn(case, data)
    return data, fn


def dummy(case):
    """a feature the model ignores has no interactions, no one vs all value and no importance; the others do not notice it"""
    data, fn = base_case(case)
    name = "dummy!"
    kind = case.choice(["continuous", "grid", "binary", "string", "bool", "category"])
    v, t = gen.make_column(case, data.n, kind)
    X2 = data.X.copy()
    pos = case.randint(0, len(data.cols))
    X2.insert(pos, name, v)
    keep = [i for i in range(len(data.cols) + 1) if i != pos]
    types = dict(data.types, **{name: t})
    a = Numbers(case, gen.Regressor(fn, data.types), data.X)
    b = Numbers(case, gen.Regressor(lambda M: fn(M[:, keep]), types), X2)
    ref = oracles.PD(fn, data.M)
    gray = grays(ref, data, data.cols)
    s = max(ref.scale, 1e-9)
    for t_ in Numbers.TABLES:
        for k, val in getattr(b, t_).items():
            if name in k if isinstance(k, frozenset) else k == name:
                other = [x for x in k if x != name][0] if isinstance(k, frozenset) else None
                if t_ == "h" and np.ptp(ref.single(data.cols.index(other), ref.M[:, data.cols.index(other)])) < 1e-6 * s:
                    case.count("gray_skipped")
                    continue
                if t_ == "hova" and np.ptp(ref.preds) < 1e-6 * s:
                    continue
                case.check(abs(val) <= 1e-7 * (1 if t_ in ("h", "hova") else s), "a feature the model ignores has no effect", table=t_,
                           key=sorted(k) if isinstance(k, frozenset) else k, observed=val)
                case.count("dummy_entries")
        short = {k: val for k, val in getattr(b, t_).items() if not (name in k if isinstance(k, frozenset) else k == name)}
        setattr(b, t_, short)
    close(case, b, a, "an ignored feature does not change other results", s, gray)
    case.sign("dummy", kind, pos, data.n, len(data.cols))


def additive(case):
    """no interactions in a sum of functions of single features"""
    data = gen.make_data(case, n=case.randint(4, 12), p=case.randint(2, 5), max_uniques=5)
    fn = gen.make_fn(case, data, additive=True)
    n = Numbers(case, gen.Regressor(fn, data.types), data.X, **gen.batchsize(case, data.n))
    ref = oracles.PD(fn, data.M)
    s = max(ref.scale, 1e-9)
    gray = grays(ref, data, data.cols)
    exph, expo = tables.expected_h(data, ref, data.cols), tables.expected_ova(data, ref, data.cols)
    for t in ("h", "hova", "u", "uova", "g"):
        for k, v in getattr(n, t).items():
            if t in ("h", "hova"):
                e = (exph if t == "h" else expo)[k]
                if isinstance(e, str):
                    continue
                room = getattr(e, "atol", 0.0)
            else:
                room = 0.0
            case.check(abs(v) <= room + 1e-7 * (1 if t in ("h", "hova") else s), "no interactions in an additive model", table=t,
                       key=sorted(k) if isinstance(k, frozenset) else k, observed=v)
            case.count("additive_entries")
    if "add" not in gray or oracles.additivity(ref) == 1.0:
        case.check(abs(n.add - 1) < 1e-6, "an additive model has index 1", observed=n.add)
    case.sign("additive", data.n, tuple(data.cols), tuple(data.describe()["uniques"]))


def transform(case):
    """rows reordered, data repeated, columns reordered or renamed, rows relabelled, predictions rescaled"""
    data, fn = base_case(case)
    base = Numbers(case, gen.Regressor(fn, data.types), data.X)
    ref = oracles.PD(fn, data.M)
    gray = grays(ref, data, data.cols)
    s = max(ref.scale, 1e-9)
    how = case.choice(["rows", "repeat", "columns", "rename", "index", "scale", "scale", "features", "shift"])
    kw = gen.batchsize(case, data.n)
    factor, rtol = 1.0, 1e-6
    X, model, feats, back = data.X, gen.Regressor(fn, data.types), None, None
    if how == "rows":
        X = X.iloc[case.rng.permutation(data.n)]
    elif how == "repeat":
        X = pd.concat([X] * case.choice([2, 3]))
    elif how == "columns":
        perm = list(case.rng.permutation(len(data.cols)))
        X = X[[data.cols[i] for i in perm]]
        inv = [perm.index(i) for i in range(len(perm))]
        model = gen.Regressor(lambda M: fn(M[:, inv]), data.types)
    elif how == "rename":
        new = gen.column_names(case, len(data.cols))
        if case.flip():
            new = [c + "_" for c in data.cols][::-1]
        X = X.copy()
        X.columns = new
        model = gen.Regressor(fn, {b: data.types[a] for a, b in zip(data.cols, new)})
        back = dict(zip(new, data.cols))
    elif how == "index":
        X = X.copy()
        X.index = gen.make_index(case, data.n)[1]
    elif how == "scale":
        factor = float(case.choice([-1.0, 2.0, -0.5, 1024.0, 2.0 ** -20, 1e-3, 3.7]))
        model = gen.Regressor(lambda M: factor * fn(M), data.types)
        factor = abs(factor)
    elif how == "shift":
        off = float(case.choice([1.0, -64.0, 512.0]))
        model = gen.Regressor(lambda M: fn(M) + off, data.types)
        gray |= grays(oracles.PD(lambda M: fn(M) + off, data.M), data, data.cols)
        s = max(s, abs(off))
        rtol = 1e-6
    else:
        feats = [str(c) for c in case.rng.permutation(data.cols)]
    other = Numbers(case, model, X, feats, **kw)
    if back is not None:
        for t in Numbers.TABLES:
            setattr(other, t, {(frozenset(back[x] for x in k) if isinstance(k, frozenset) else back[k]): v for k, v in getattr(other, t).items()})
    if how in ("scale", "shift"):
        # values near the border to rounding noise may fall on either side of it
        gray |= {(t, k) for t in ("h", "hova") for k, v in getattr(base, t).items() if v < 1e-9}
    if how == "shift":
        weak = max(s, 1e-9) * 1e-4
        gray |= {("h", k) for k in base.h if base.u[k] < weak or min(base.imp[x] for x in k) < weak}
        gray |= {("hova", k) for k in base.hova}
        if np.ptp(ref.preds) < weak:
            gray.add("add")
    close(case, other, base, f"invariance ({how})", s * factor, gray, rtol=rtol, factor=factor)
    for t in Numbers.TABLES:
        case.check(min(list(getattr(other, t).values()) + [0]) >= 0, "no negative values", table=t)
    case.count("relation_" + how)
    case.note(transformation=how, data=data.describe())
    case.sign(how, data.n, tuple(data.cols), len(kw))


def trees(case):
    """tree based methods: renamed columns rename the result, the order of trees in a forest does not matter, repeating a forest changes nothing"""
    X, y = realmodels.numeric_data(case, n=case.randint(20, 60), p=case.randint(2, 5), names=list("abcdef"))
    new = dict(zip(X.columns, gen_names(case, X.shape[1])))
    X2 = X.rename(columns=new)
    if case.flip():
        import copy
        model = realmodels.forest(case, X, y)
        if all(e.tree_.node_count == 1 for e in model.estimators_):
            raise Skip("forest without splits")
        a, b, c = (ConditionalMinimalDepthMethod() for _ in range(3))
        a.fit(model)
        renamed = copy.deepcopy(model)
        renamed.feature_names_in_ = np.array(list(X2.columns), dtype=object)
        b.fit(renamed)
        shuffled = copy.deepcopy(model)
        k = case.choice([1, 1, 2, 3])
        shuffled.estimators_ = [shuffled.estimators_[i] for i in case.rng.permutation(len(model.estimators_) * k) % len(model.estimators_)]
        c.fit(shuffled)
        ta, tb, tc = (pair_table(m, "root_variable", "variable") for m in (a, b, c))
        same(case, tb, {(new[p], new[q]): v for (p, q), v in ta.items()}, "renamed columns rename the result")
        same(case, tc, ta, "the order of the trees does not matter")
        oa, oc = ({(p, q): int(o) for p, q, o in zip(m.ovo["root_variable"], m.ovo["variable"], m.ovo["n_occurences"])} for m in (a, c))
        case.check(oc == {q: k * v for q, v in oa.items()}, "occurrences are counted over trees", observed=oc, expected=oa, k=k)
        ia, ib, ic = (feature_table(m.feature_importance) for m in (a, b, c))
        same(case, ib, {new[p]: v for p, v in ia.items()}, "renamed columns rename the importance")
        same(case, ic, ia, "the order of the trees does not matter for importance")
        case.count("forest_relations", len(ta))
        case.sign("forest", X.shape, len(model.estimators_), k, tuple(X2.columns))
        return
    state = case.rng.bit_generator.state
    m1, b1, package = realmodels.booster(case, X, y, package=case.choice(["xgboost", "lightgbm"]))
    case.rng.bit_generator.state = state
    m2, b2, _ = realmodels.booster(case, X2, y, package=case.choice(["xgboost", "lightgbm"]))
    sp1, sp2 = boosters.splits(b1, package), boosters.splits(b2, package)
    if not sp1 or [new[s["feature"]] for s in sp1] != [s["feature"] for s in sp2]:
        raise Skip("no splits, or the library grew another ensemble")
    metric, imp = case.choice(["mean_gain", "sum_gain", "mean_depth"]), case.choice(["mean_gain", "sum_gain", "mean_depth", "root_frequency"])
    only = case.flip()
    a, b = SplitScoreMethod(), SplitScoreMethod()
    for m, mod in ((a, m1), (b, m2)):
        m.fit(mod, interaction_selected_metric=metric, importance_selected_metric=imp, only_def_interactions=only)
    ta, tb = directed(a), directed(b)
    same(case, tb, {(new[p], new[q]): v for (p, q), v in ta.items()}, "renamed columns rename the result")
    ia, ib = feature_table(a.feature_importance), feature_table(b.feature_importance)
    same(case, ib, {new[p]: v for p, v in ia.items()}, "renamed columns rename the importance")
    case.count("booster_relations", len(ta) + len(ia))
    case.sign("booster", package, X.shape, metric, imp, only, tuple(X2.columns))


def directed(m):
    out = {}
    for p, q, v in zip(m.ovo["Feature 1"], m.ovo["Feature 2"], m.ovo[m.method]):
        out[p, q] = float(v)
    return out


def gen_names(case, p):
    names = list(case.choice([["x1", "x10", "x11", "x2", "x12", "x100"], ["b", "a", "ab", "ba", "aa", "bb"], ["z", "y", "x", "w", "v", "u"]]))
    case.rng.shuffle(names)
    return names[:p]


def same(case, got, exp, what):
    case.check(set(got) == set(exp), f"{what}: entries", got=sorted(map(str, got)), expected=sorted(map(str, exp)))
    for k, v in exp.items():
        g = got[k]
        case.check(g == v or (np.isnan(g) and np.isnan(v)) or abs(g - v) <= 1e-6 * max(1, abs(v)), what, key=str(k), observed=g, expected=v)


def performance(case):
    """squared error scales with the square of the units; equal seeds permute equally"""
    data = gen.make_data(case, n=case.randint(8, 16), p=case.randint(2, 4), max_uniques=6, kinds=gen.NUM_KINDS)
    fn = gen.make_fn(case, data)
    y = fn(data.M) + case.rng.normal(size=data.n)
    c = float(case.choice([2.0, -1.0, 0.25, 10.0]))
    seed, R = case.randint(0, 10 ** 6), case.choice([1, 2, 4])
    n = case.choice([None, data.n // 2])
    kw = dict(n_repeat=R, **({} if n is None else {"n": n}))
    a, b = SejongOhMethod(MSE(), random_state=seed), SejongOhMethod(MSE(), random_state=seed)
    a.fit(gen.Regressor(fn, data.types), data.X, y, **kw)
    b.fit(gen.Regressor(lambda M: c * fn(M), data.types), data.X, c * y, **kw)
    s = float(np.mean(y ** 2)) + float(np.max(np.abs(fn(data.M)))) ** 2
    for x, z, what in ((unordered(pair_table(a)), unordered(pair_table(b)), "interaction"),
                       (feature_table(a.feature_importance), feature_table(b.feature_importance), "importance")):
        case.check(set(x) == set(z), "the same entries")
        for k in x:
            case.check(abs(z[k] - c * c * x[k]) <= 1e-7 * c * c * max(s, abs(x[k])), f"{what} scales with the squared unit",
                       key=str(k), observed=z[k], expected=c * c * x[k])
            case.count("scaled_entries", int(abs(x[k]) > 1e-6 * s))
    case.sign("performance", data.n, tuple(data.cols), R, n, c)


CHECK = Check(
    "C25", "results transform with data, names and units as their definitions demand",
    {"real": (real, 90, 1500), "typed": (typed, 60, 1200), "dummy": (dummy, 120, 2500), "additive": (additive, 120, 2500), "transform": (transform, 260, 5000),
     "trees": (trees, 160, 3000), "performance": (performance, 100, 1500)},
    required=dict({"relation_" + h: 8 for h in ("rows", "repeat", "columns", "rename", "index", "scale", "features", "shift")},
                  dummy_entries=300, additive_entries=300, nonzero_relations=1000, forest_relations=200, booster_relations=100,
                  scaled_entries=100, **{"real_" + k: 2 for k in ("linear", "rf", "gb", "svr", "logistic", "rfc", "xgb", "lgbm", "pipeline")}, typed_lgbm=10, typed_pipeline=20),
    rule="pairs of runs related by a transformation whose effect on every value is known, and real models of scikit-learn, xgboost and lightgbm "
         "against the definitions; distinct by transformation, model, shape and names",
    assumptions=["normalised values decided by rounding noise (flat effects) are not judged"])
