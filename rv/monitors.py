"""State monitors: snapshots of everything a computation could disturb."""
import hashlib
import pickle
import random

import numpy as np
import pandas as pd


def dtype_state(dtype):
    if isinstance(dtype, pd.CategoricalDtype):
        return ("category", tuple(map(repr, dtype.categories)), bool(dtype.ordered))
    return str(dtype)


def frame_state(X):
    """full observable state of a frame / series / array / list"""
    if isinstance(X, pd.DataFrame):
        cols = []
        for j in range(X.shape[1]):
            s = X.iloc[:, j]
            cols.append((dtype_state(s.dtype), tuple(repr(v) for v in s.astype(object).values)))
        return ("frame", tuple(map(repr, X.columns)), tuple(map(repr, X.index)), str(X.index.dtype), repr(X.index.names), repr(X.columns.names), tuple(cols))
    if isinstance(X, pd.Series):
        return ("series", dtype_state(X.dtype), repr(X.name), repr(X.index.names), tuple(map(repr, X.index)), tuple(repr(v) for v in X.astype(object).values))
    if isinstance(X, np.ndarray):
        return ("array", str(X.dtype), X.shape, X.tobytes() if X.dtype != object else tuple(map(repr, X.ravel())))
    if isinstance(X, dict):
        return ("dict", tuple((repr(k), frame_state(v)) for k, v in X.items()))
    if isinstance(X, (list, tuple)):
        return (type(X).__name__, tuple(frame_state(v) for v in X))
    return ("value", repr(X))


def model_state(model):
    if hasattr(model, "get_booster"):
        model = model.get_booster()
    if hasattr(model, "booster_"):
        model = model.booster_
    if hasattr(model, "save_raw"):
        raw = bytes(model.save_raw())
        return (hashlib.sha1(raw).hexdigest(), repr(model.feature_names))
    if hasattr(model, "model_to_string"):
        return (hashlib.sha1(model.model_to_string().encode()).hexdigest(),)
    return (hashlib.sha1(pickle.dumps(model)).hexdigest(),)


def rng_state():
    s = np.random.get_state()
    return (hashlib.sha1(pickle.dumps(s)).hexdigest(), hashlib.sha1(pickle.dumps(random.getstate())).hexdigest())


def result_state(obj):
    """public result tables of a fitted object"""
    out = {}
    for name in ("ovo", "ova", "feature_importance", "full_result", "full_ovo", "raw_result_df", "additivity_index", "preds",
                 "X_sampled", "y_sampled", "features_included", "pairs"):
        if hasattr(obj, name):
            v = getattr(obj, name)
            out[name] = frame_state(list(v) if isinstance(v, pd.Index) else v) if v is not None else None
    calc = getattr(obj, "pd_calculator", None)
    if calc is not None:
        out["pd"] = calc_state(calc)
    return out


def calc_state(calc):
    cols = list(calc.X.columns)
    return ([frame_state(np.array(calc.get_pd_single(c))) for c in cols],
            [frame_state(np.array(calc.get_pd_pairs(a, b))) for i, a in enumerate(cols) for b in cols[i + 1:]],
            [frame_state(np.array(calc.get_pd_minus_single(c))) for c in cols],
            frame_state(calc.X))


def diff(a, b):
    return [k for k in a if a[k] != b.get(k)]
