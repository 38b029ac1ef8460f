"""Helpers shared by the checks: reading results through the public attributes, and fitting methods."""
import numpy as np
import pandas as pd

from artemis._utilities.pd_calculator import PartialDependenceCalculator
from artemis.additivity import AdditivityMeter
from artemis.comparison import FeatureInteractionMethodComparator
from artemis.importance_methods.model_agnostic import PartialDependenceBasedImportance, PermutationImportance
from artemis.interactions_methods.model_agnostic import FriedmanHStatisticMethod, GreenwellMethod, SejongOhMethod
from artemis.interactions_methods.model_specific import ConditionalMinimalDepthMethod, SplitScoreMethod

from . import gen, oracles

__all__ = ["PartialDependenceCalculator", "AdditivityMeter", "FeatureInteractionMethodComparator",
           "PartialDependenceBasedImportance", "PermutationImportance", "FriedmanHStatisticMethod", "GreenwellMethod",
           "SejongOhMethod", "ConditionalMinimalDepthMethod", "SplitScoreMethod"]


def raw_distinct(data, j):
    """sorted distinct raw values of column j and their encoding"""
    c = data.cols[j]
    raw = data.X.iloc[:, j].astype(object).values
    vals = sorted(set(raw))
    if data.types[c] == "cat":
        return vals, np.array([gen.code_of(v) for v in vals])
    return vals, np.array([float(v - gen.BIG if v >= gen.BIG else v) for v in vals])


def pair_table(method, f1="Feature 1", f2="Feature 2"):
    """ovo table as {(f1, f2): value} in the orientation of the table"""
    return {(a, b): float(v) for a, b, v in zip(method.ovo[f1], method.ovo[f2], method.ovo[method.method])}


def unordered(table):
    return {frozenset(k): v for k, v in table.items()}


def feature_table(df, value="Importance"):
    return {f: float(v) for f, v in zip(df["Feature"], df[value])}


def pairs_of(features):
    features = list(features)
    return [(a, b) for i, a in enumerate(features) for b in features[i + 1:]]


def is_num(data, col):
    return data.types[col] != "cat"


def multiset(X, types):
    """rows (encoded) with multiplicities"""
    out = {}
    for row in gen.encode(X, types):
        k = tuple(row)
        out[k] = out.get(k, 0) + 1
    return out


def is_subsample(sub, X, types):
    a, b = multiset(sub, types), multiset(X, types)
    return all(b.get(k, 0) >= v for k, v in a.items())


def check_sorted(case, values, ascending, message, **kw):
    v = [float(x) for x in values if not np.isnan(float(x))]
    ok = all((x <= y) if ascending else (x >= y) for x, y in zip(v, v[1:]))
    case.check(ok, message, values=v, **kw)


def check_pairs(case, method, features, message):
    """exactly one row per unordered pair of the features"""
    got = [frozenset(k) for k in zip(method.ovo["Feature 1"], method.ovo["Feature 2"])]
    exp = {frozenset(k) for k in pairs_of(features)}
    case.check(len(got) == len(exp) and set(got) == exp, message,
               got=[sorted(g) for g in got], expected=[sorted(e) for e in exp])


def compare_tables(case, got, exp, message, rtol, atol, skip=()):
    """dicts key -> value; values equal to oracles.GRAY in exp are not judged"""
    atol = atol() if callable(atol) else atol
    for k, e in exp.items():
        if isinstance(e, str):
            case.count("gray_skipped")
            continue
        g = got[k]
        case.count("oracle_evaluations")
        case.count("nonzero_values", int(abs(e) > 1e-9))
        tol = atol + rtol * abs(e) + getattr(e, "atol", 0.0)
        ok = (np.isnan(e) and np.isnan(g)) or (g == e) or abs(g - e) <= tol
        if not ok:
            from .core import Violation
            raise Violation(message, {"key": sorted(k) if isinstance(k, frozenset) else k, "observed": g, "expected": e,
                                      "all_observed": {str(sorted(q) if isinstance(q, frozenset) else q): v for q, v in got.items()},
                                      "all_expected": {str(sorted(q) if isinstance(q, frozenset) else q): v for q, v in exp.items()}})


def method_data(case, data, n):
    """rows and n argument"""
    return {} if n is None else {"n": n}
