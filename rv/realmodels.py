"""Real scikit-learn / xgboost / lightgbm models on small random data."""
import numpy as np
import pandas as pd

from . import gen

GB_NAMES = [["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"],
            ["x1", "x10", "x11", "x2", "x12", "x100", "x20", "x21", "x3", "x13", "x4", "x5"],
            ["a", "ab", "b", "bb", "ba", "aa", "aab", "abb", "A", "B", "Ab", "aB"],
            ["f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7", "f8", "f9", "f10", "f11"],
            ["Leaf", "leaf", "Feature", "tree", "depth", "gain", "cover", "node", "ID", "interaction", "Yes", "split_feature"]]


def numeric_data(case, n=None, p=None, names=None):
    rng = case.rng
    n = n or case.randint(30, 120)
    p = p or case.randint(2, 6)
    if names is None:
        names = list(case.choice(GB_NAMES))
        if case.flip():
            rng.shuffle(names)
    names = names[:p] + [f"w{i}" for i in range(len(names), p)]
    cols = {}
    for c in names:
        k = case.choice(["normal", "normal", "grid", "binary"])
        cols[c] = {"normal": lambda: np.round(rng.normal(size=n), 3), "grid": lambda: rng.integers(0, 6, n).astype(float),
                   "binary": lambda: rng.integers(0, 2, n).astype(float)}[k]()
    X = pd.DataFrame(cols)
    M = X.values
    y = M @ rng.normal(size=p)
    for _ in range(case.randint(1, 3)):
        i, j = rng.integers(0, p, 2)
        y = y + rng.normal() * 2 * M[:, i] * M[:, j] + 2 * rng.normal() * ((M[:, i] > 0) ^ (M[:, j] > 0))
    y = y + 0.1 * rng.normal(size=n)
    return X, y


def large_forest(case):
    """many trees, deep trees or many features"""
    kind = case.choice(["many", "many", "deep", "wide", "chain"])
    if kind == "chain":        # one value is split off at every level
        X, y = numeric_data(case, n=case.randint(60, 90), p=case.randint(2, 3))
        X[X.columns[0]] = case.rng.permutation(len(X)).astype(float)
        X[X.columns[1]] = X[X.columns[0]] * 3 + 1     # equally good: which one is split at is random
        y = 2.0 ** X[X.columns[0]].values
        return X, forest(case, X, y, regression=True, n_estimators=2, max_depth=None, max_leaf_nodes=None, min_samples_leaf=1,
                         max_features=1.0, bootstrap=case.flip())
    X, y = numeric_data(case, n=case.randint(250, 600) if kind == "deep" else None, p=case.randint(15, 28) if kind == "wide" else case.randint(2, 4))
    over = {"many": dict(n_estimators=case.choice([60, 101, 130, 260]), max_depth=case.choice([1, 2, 3])),
            "deep": dict(n_estimators=2, max_depth=None, max_leaf_nodes=None, min_samples_leaf=1),
            "wide": dict(n_estimators=4, max_depth=case.choice([3, 6, None]))}[kind]
    return X, forest(case, X, y, **over)


def bare_forest(case):
    """few or no splits at all: constant targets or leaves as large as the data"""
    X, y = numeric_data(case, n=case.randint(20, 50))
    if case.flip():
        return X, forest(case, X, y, min_samples_leaf=len(X) // 2 - case.randint(-2, 3), max_leaf_nodes=None)
    from sklearn.ensemble import ExtraTreesRegressor, RandomForestClassifier, RandomForestRegressor
    cls = case.choice([RandomForestRegressor, ExtraTreesRegressor, RandomForestClassifier])
    target = np.full(len(X), 2)
    if case.flip():
        target[case.randint(0, len(X) - 1)] = 3       # some bootstrap samples do not contain it
    return X, cls(n_estimators=case.choice([1, 2, 5]), random_state=case.randint(0, 10 ** 6)).fit(X, target)


def large_booster(case, package=None):
    kind = case.choice(["many", "many", "deep", "wide", "nameless"])
    X, y = numeric_data(case, n=case.randint(250, 600) if kind == "deep" else None, p=case.randint(15, 28) if kind == "wide" else case.randint(2, 5))
    over = {"many": dict(trees=case.choice([60, 101, 130, 210]), depth=case.choice([1, 2, 3])), "deep": dict(trees=3, depth=12),
            "wide": dict(trees=8), "nameless": {}}[kind]
    if kind == "many":
        over["task"] = case.choice(["reg", "bin"])
    return X, booster(case, X.values if kind == "nameless" else X, y, package, **over)


def forest(case, X, y, regression=False, **over):
    from sklearn.ensemble import ExtraTreesClassifier, ExtraTreesRegressor, RandomForestClassifier, RandomForestRegressor
    cls = case.choice([RandomForestRegressor, RandomForestRegressor, ExtraTreesRegressor, RandomForestClassifier, ExtraTreesClassifier][:2 if regression else 5])
    kw = dict(n_estimators=case.choice([1, 2, 3, 5, 8, 12, 15]), random_state=case.randint(0, 10 ** 6),
              max_depth=case.choice([1, 2, 3, 4, 6, None]), max_leaf_nodes=case.choice([None, None, None, 3, 5, 8, 15]),
              min_samples_leaf=case.choice([1, 1, 3, 8]), max_features=case.choice([1, 0.5, 1.0]))
    kw.update(over)
    m = cls(**kw)
    yy = np.digitize(y, np.quantile(y, [0.4, 0.7])) if "Classifier" in cls.__name__ else y
    if len(np.unique(yy)) < 2:
        yy = (np.arange(len(y)) % 2)
    return m.fit(X, yy)


def booster(case, X, y, package=None, **over):
    """-> (model as the user has it, native booster, package)"""
    package = package or case.choice(["xgboost", "lightgbm"])
    trees = case.choice([1, 2, 3, 5, 8, 11, 14, 25])
    depth = case.choice([1, 2, 3, 4, 6])
    seed = case.randint(0, 10 ** 6)
    task = case.choice(["reg", "reg", "bin", "multi"])
    api = case.choice(["sklearn", "native"])
    depth_limit = "depth" not in over
    trees, depth, task, api = over.get("trees", trees), over.get("depth", depth), over.get("task", task), over.get("api", api)
    lab = (y > np.median(y)).astype(int) if task == "bin" else np.digitize(y, np.quantile(y, [0.33, 0.66]))
    target = y if task == "reg" else lab
    if task == "multi":
        trees = min(trees, 5)
    if package == "xgboost":
        import xgboost as xgb
        gamma = case.choice([0, 0, 0.5])
        lossguide = case.flip(0.25)
        extra = dict(grow_policy="lossguide", max_leaves=case.choice([4, 6, 9]), tree_method="hist") if lossguide else {}
        if api == "sklearn":
            kw = dict(n_estimators=trees, max_depth=depth, random_state=seed, n_jobs=1, subsample=case.choice([1.0, 0.8]),
                      gamma=gamma, verbosity=0, **extra)
            m = xgb.XGBRegressor(**kw) if task == "reg" else xgb.XGBClassifier(**kw)
            m.fit(X, target)
            return m, m.get_booster(), package
        params = dict(max_depth=depth, seed=seed, nthread=1, gamma=gamma, verbosity=0, **extra)
        if task == "bin":
            params["objective"] = "binary:logistic"
        if task == "multi":
            params.update(objective="multi:softprob", num_class=3)
        m = xgb.train(params, xgb.DMatrix(X, target), num_boost_round=trees)
        return m, m, package
    import lightgbm as lgb
    leaves = case.choice([2, 3, 4, 7, 12, 31]) if depth_limit or depth < 10 else 80
    mc = case.choice([1, 2, 5])
    if api == "sklearn":
        kw = dict(n_estimators=trees, max_depth=depth if case.flip() or depth > 9 else -1, num_leaves=leaves, min_child_samples=mc,
                  random_state=seed, n_jobs=1, verbose=-1, deterministic=True, force_row_wise=True)
        m = lgb.LGBMRegressor(**kw) if task == "reg" else lgb.LGBMClassifier(**kw)
        m.fit(X, target)
        return m, m.booster_, package
    params = dict(num_leaves=leaves, min_data_in_leaf=mc, seed=seed, num_threads=1, verbose=-1, deterministic=True,
                  force_row_wise=True)
    if task == "bin":
        params["objective"] = "binary"
    if task == "multi":
        params.update(objective="multiclass", num_class=3)
    m = lgb.train(params, lgb.Dataset(X, target), num_boost_round=trees)
    return m, m, package


def tied_booster(case):
    """A split below another feature whose gain is exactly that of its parent (no rounding on the way): not a better one."""
    k = case.choice([1, 1, 2])                       # rows per unit
    scale = float(2.0 ** case.randint(-3, 3)) * case.choice([1, -1])
    a, b = np.repeat([0.0] * 4 + [1.0] * 12, k), np.repeat([1.0] + [0.0] * 15, k)
    y = np.repeat([6.0, -2.0, -2.0, -2.0] + [4.0] * 12, k) * scale
    if case.flip():
        a = 1 - a
    names = list(case.choice(GB_NAMES))
    case.rng.shuffle(names)
    X = pd.DataFrame({names[0]: a, names[1]: b, names[2]: np.zeros(len(a))})[list(case.rng.permutation(names[:3]))]
    order = case.rng.permutation(len(X))
    X, y = X.iloc[order].reset_index(drop=True), y[order]
    trees, rate = case.choice([1, 2, 4]), case.choice([0.5, 1.0, 0.25])
    if case.flip():
        import xgboost as xgb
        m = xgb.XGBRegressor(n_estimators=trees, max_depth=2, reg_lambda=0, base_score=0, learning_rate=rate, min_child_weight=0, n_jobs=1,
                             tree_method=case.choice(["exact", "hist"]), verbosity=0).fit(X, y)
        return X, (m, m.get_booster(), "xgboost")
    import lightgbm as lgb
    m = lgb.LGBMRegressor(n_estimators=trees, max_depth=2, reg_lambda=0, learning_rate=rate, min_child_samples=1, min_child_weight=0, n_jobs=1,
                          boost_from_average=False, verbose=-1, deterministic=True, force_row_wise=True).fit(X, y)
    return X, (m, m.booster_, "lightgbm")


def special_booster(case):
    """ensembles of the less common kinds: ties, many pairs, missing values, categories, dart, forests, parallel trees, rankers, parts of ensembles"""
    kind = case.choice(["tied", "tied", "dense", "missing", "category", "dart", "rf", "parallel", "rank", "early", "part"])
    if kind == "tied":
        return tied_booster(case)
    package = case.choice(["xgboost", "lightgbm"])
    dense = kind == "dense"
    X, y = numeric_data(case, p=case.randint(13, 20) if dense else case.randint(3, 5), n=case.randint(120, 200) if dense else None)
    trees, depth, seed = case.choice([3, 6]), case.choice([2, 3, 4]), case.randint(0, 10 ** 6)
    if kind == "missing":
        for c in X.columns[:2]:
            X.loc[case.rng.uniform(size=len(X)) < 0.2, c] = np.nan
    if kind == "category":
        X[X.columns[0]] = pd.Categorical(case.rng.integers(0, 5, len(X)))
        y = y + np.array([0, 3, -2, 5, 1.0])[X[X.columns[0]].cat.codes]
    if dense:
        trees, depth = 25, 6
    if package == "xgboost":
        import xgboost as xgb
        kw = dict(n_estimators=trees, max_depth=depth, random_state=seed, n_jobs=1, verbosity=0)
        kw.update({"category": dict(tree_method="hist", enable_categorical=True, max_cat_to_onehot=case.choice([2, 10])),
                   "dart": dict(booster="dart", rate_drop=0.4), "parallel": dict(num_parallel_tree=3, subsample=0.7),
                   "early": dict(n_estimators=25, early_stopping_rounds=2)}.get(kind, {}))
        if kind == "rf":
            m = xgb.XGBRFRegressor(**kw).fit(X, y)
        elif kind == "rank":
            m = xgb.XGBRanker(objective="rank:pairwise", **kw).fit(X, (y > np.median(y)).astype(int), group=[len(X) // 2, len(X) - len(X) // 2])
        elif kind == "early":
            m = xgb.XGBRegressor(**kw).fit(X, y, eval_set=[(X[:15], y[:15] + 5 * case.rng.normal(size=15))], verbose=False)
        else:
            m = xgb.XGBRegressor(**kw).fit(X, y)
        if kind == "part":
            part = m.get_booster()[1:3]
            return X, (part, part, package)
        return X, (m, m.get_booster(), package)
    import lightgbm as lgb
    kw = dict(n_estimators=trees, max_depth=depth, random_state=seed, n_jobs=1, verbose=-1, min_child_samples=3, deterministic=True, force_row_wise=True)
    kw.update({"category": dict(cat_smooth=1, min_data_per_group=1), "dart": dict(boosting_type="dart"), "early": dict(n_estimators=25),
               "rf": dict(boosting_type="rf", subsample=0.7, subsample_freq=1), "parallel": dict(boosting_type="goss")}.get(kind, {}))
    if dense:
        kw.update(max_depth=-1, num_leaves=31)
    if kind == "rank":
        m = lgb.LGBMRanker(**kw).fit(X, (y > np.median(y)).astype(int), group=[len(X) // 2, len(X) - len(X) // 2])
    elif kind == "early":
        m = lgb.LGBMRegressor(**kw).fit(X, y, eval_set=[(X[:15], y[:15] + 5 * case.rng.normal(size=15))], callbacks=[lgb.early_stopping(2, verbose=False)])
    else:
        m = lgb.LGBMRegressor(**kw).fit(X, y)
    if kind == "part":
        whole = lgb.Booster(model_str=m.booster_.model_to_string(num_iteration=2))
        return X, (whole, whole, package)
    return X, (m, m.booster_, package)


def retrained_booster(case):
    """one model object in two or three states: trained, then trained again or further in place; yields (X, (model, booster, package))"""
    X, y = numeric_data(case, p=case.randint(3, 5))
    package, api = case.choice(["xgboost", "lightgbm"]), case.choice(["sklearn", "sklearn", "native"])
    trees, seed, times = case.choice([2, 4]), case.randint(0, 10 ** 6), case.choice([2, 3])
    if api == "sklearn":
        if package == "xgboost":
            import xgboost as xgb
            m = xgb.XGBRegressor(n_estimators=trees, max_depth=3, random_state=seed, n_jobs=1, verbosity=0)
        else:
            import lightgbm as lgb
            m = lgb.LGBMRegressor(n_estimators=trees, max_depth=3, random_state=seed, n_jobs=1, verbose=-1, min_child_samples=3, deterministic=True)
        other = X.copy()
        for k in range(times):
            m.fit(other, y if k == 0 else case.rng.permutation(y))
            yield other, (m, m.get_booster() if package == "xgboost" else m.booster_, package)
            if case.flip(0.3):
                other = other[list(case.rng.permutation(other.columns))]
        return
    if package == "xgboost":
        import xgboost as xgb
        data = xgb.DMatrix(X, y)
        m = xgb.train(dict(max_depth=3, seed=seed, nthread=1, verbosity=0), data, num_boost_round=trees)
        for k in range(times):
            yield X, (m, m, package)
            m.update(data, trees + k)
        return
    import lightgbm as lgb
    m = lgb.train(dict(num_leaves=6, min_data_in_leaf=3, seed=seed, num_threads=1, verbose=-1, deterministic=True, force_row_wise=True),
                  lgb.Dataset(X, y), num_boost_round=trees, keep_training_booster=True)
    for k in range(times):
        yield X, (m, m, package)
        m.update()


def retrained_forest(case):
    """one forest object trained again in place, or grown by further trees; yields (X, model)"""
    X, y = numeric_data(case, p=case.randint(2, 5))
    m = forest(case, X, y, n_estimators=case.choice([2, 4]))
    grow = case.flip(0.4)
    for k in range(case.choice([2, 3])):
        yield X, m
        label = case.rng.permutation(y)
        if type(m).__name__.endswith("Classifier"):
            label = np.digitize(label, np.quantile(label, [0.4, 0.7]))
            if len(np.unique(label)) != len(m.classes_):
                return
            label = m.classes_[label] if label.max() < len(m.classes_) else label
        if grow:
            m.set_params(warm_start=True, n_estimators=len(m.estimators_) + case.randint(1, 3))
        elif case.flip(0.3):
            X = X[list(case.rng.permutation(X.columns))]
        m.fit(X, label)
