"""Expected result tables of the partial dependence based computations, and their comparison with fitted objects."""
import numpy as np

from . import oracles
from .common import compare_tables, feature_table, is_num, pair_table, pairs_of, unordered


def expected_h(data, pd, feats, normalized=True):
    ix = data.cols.index
    return {frozenset(q): oracles.h_ovo(pd, ix(q[0]), ix(q[1]), normalized) for q in pairs_of(feats)}


def expected_ova(data, pd, feats, normalized=True):
    return {c: oracles.h_ova(pd, data.cols.index(c), normalized) for c in feats}


def expected_greenwell(data, pd, feats):
    ix = data.cols.index
    return {frozenset(q): oracles.greenwell(pd, ix(q[0]), ix(q[1]), is_num(data, q[0]), is_num(data, q[1]))
            for q in pairs_of(feats)}


def expected_importance(data, pd, feats):
    return {c: oracles.pd_importance(pd, data.cols.index(c), is_num(data, c)) for c in feats}


def tolerances(pd, rtol, normalized):
    """(rtol, atol) of table values; unnormalised values scale with the predictions"""
    if normalized:
        return (1e-6, 1e-7) if rtol <= 1e-6 else (1e-2, 1e-2)
    return max(1e-6, rtol), absolute(pd, rtol)


def absolute(pd, rtol):
    """rounding noise of differences of partial dependence values"""
    return (4e-12 if rtol <= 1e-6 else rtol) * max(pd.scale, 1e-9)


def judge_h(case, method, data, pd, feats, normalized, rtol, ova=True, what=""):
    exp = expected_h(data, pd, feats, normalized)
    exp_ova = expected_ova(data, pd, feats, normalized) if ova else {}
    r, a = tolerances(pd, rtol, normalized)         # the scale is known once everything was evaluated
    compare_tables(case, unordered(pair_table(method)), exp, f"H-statistic of pairs {what}", r, a)
    if ova:
        compare_tables(case, feature_table(method.ova, method.method), exp_ova, f"H-statistic one vs all {what}", r, a)


def judge_greenwell(case, method, data, pd, feats, rtol, what=""):
    exp = expected_greenwell(data, pd, feats)
    r, a = tolerances(pd, rtol, False)
    compare_tables(case, unordered(pair_table(method)), exp, f"Greenwell values {what}", r, a)


def judge_importance(case, table, data, pd, feats, rtol, what=""):
    exp = expected_importance(data, pd, feats)
    r, a = tolerances(pd, rtol, False)
    compare_tables(case, feature_table(table), exp, f"PD based importance {what}", r, a)
