"""Reference semantics, computed from the definitions on the encoded data (independently of the code under test)."""
import numpy as np


def distinct(col):
    return np.unique(col)


def pd_at(fn, M, cols, values):
    """partial dependence: mean prediction with `cols` set to `values` in every row; largest prediction it is a mean of"""
    Q = M.copy()
    for c, v in zip(cols, values):
        Q[:, c] = v
    y = np.asarray(fn(Q), dtype=float)
    return float(np.mean(y)), float(np.max(np.abs(y)))


class PD:
    """memoised partial dependence of one (function, data)"""

    def __init__(self, fn, M, rtol=1e-7):
        self.fn, self.M, self.cache = fn, M, {}
        self.gray = 1e-9 if rtol <= 1e-6 else 1e-2        # single precision predictions: more is rounding noise
        self.preds = np.asarray(fn(M), dtype=float)
        self.scale = float(np.max(np.abs(self.preds))) if len(M) else 0.0

    def at(self, cols, values):
        key = tuple(sorted(zip(cols, (float(v) for v in values))))
        if key not in self.cache:
            self.cache[key], top = pd_at(self.fn, self.M, [k[0] for k in key], [k[1] for k in key])
            self.scale = max(self.scale, top)
        return self.cache[key]

    def single(self, j, values):
        return np.array([self.at([j], [v]) for v in values])

    def pair(self, i, j, vi, vj):
        return np.array([[self.at([i, j], [a, b]) for b in vj] for a in vi])

    def pair_obs(self, i, j):
        return np.array([self.at([i, j], [a, b]) for a, b in zip(self.M[:, i], self.M[:, j])])

    def minus(self, j):
        """mean over rows k of the prediction with every column but j taken from row i"""
        out = np.empty(len(self.M))
        for i in range(len(self.M)):
            Q = np.repeat(self.M[i:i + 1], len(self.M), axis=0)
            Q[:, j] = self.M[:, j]
            y = self.fn(Q)
            self.scale = max(self.scale, float(np.max(np.abs(y))))
            out[i] = np.mean(y)
        return out


def _c(x):
    return x - np.mean(x)


GRAY = "gray"


class Uncertain(float):
    """value of effects that are tiny compared to the predictions they are differences of: known up to atol"""

    atol = 0.0


def uncertain(value, effect):
    """effect: largest effect relative to the largest prediction"""
    if effect >= 1e-6:
        return float(value)
    u = Uncertain(value)
    u.atol = 2e-14 / effect * max(1.0, abs(value))
    return u


def h_value(a, b, ab, normalized, scale, gray=1e-9):
    """H-statistic of centred effects, GRAY if decided by rounding noise; scale: largest prediction involved"""
    local = max(np.abs(a).max(), np.abs(b).max(), np.abs(ab).max())
    num, den = (_c(ab) - _c(a) - _c(b)) ** 2, _c(ab) ** 2
    if not normalized:
        return float(np.sqrt(np.mean(num)))
    s = max(scale, local, 1e-300)
    top = np.sqrt(max(num.max(), den.max()))
    if top <= 1e-13 * local and gray <= 1e-6:
        return 0.0
    if np.sqrt(den.max()) < gray * s:
        return GRAY
    return uncertain(num.sum() / den.sum(), np.sqrt(den.max()) / s)


def h_ovo(pd, i, j, normalized=True):
    a, b, ab = pd.single(i, pd.M[:, i]), pd.single(j, pd.M[:, j]), pd.pair_obs(i, j)
    return h_value(a, b, ab, normalized, pd.scale, pd.gray)


def h_ova(pd, j, normalized=True):
    a, b = pd.single(j, pd.M[:, j]), pd.minus(j)
    return h_value(a, b, pd.preds, normalized, pd.scale, pd.gray)


def _sd(x, axis):
    return np.std(x, axis=axis, ddof=1) if x.shape[axis] > 1 else np.zeros(x.shape[1 - axis])


def _sd1(x):
    return float(np.std(x, ddof=1)) if len(x) > 1 else 0.0


def greenwell(pd, i, j, num_i, num_j):
    P = pd.pair(i, j, distinct(pd.M[:, i]), distinct(pd.M[:, j]))
    imp_j = _sd(P, 1) if num_j else (P.max(axis=1) - P.min(axis=1)) / 4      # importance of j for every value of i
    imp_i = _sd(P, 0) if num_i else (P.max(axis=0) - P.min(axis=0)) / 4
    return (_sd1(imp_j) + _sd1(imp_i)) / 2


def pd_importance(pd, j, num):
    v = pd.single(j, distinct(pd.M[:, j]))
    return float(np.std(v)) if num else float((v.max() - v.min()) / 4)


def additivity(pd):
    """-> (index or GRAY)"""
    y = pd.preds
    m = y.mean()
    add = sum(pd.single(j, pd.M[:, j]) - m for j in range(pd.M.shape[1])) + m
    res, cen = y - add, y - m
    local = max(np.abs(y).max(), 1e-300)
    s = max(pd.scale, local)
    if max(np.abs(res).max(), np.abs(cen).max()) <= 1e-13 * local and pd.gray <= 1e-6:
        return 1.0
    if np.abs(cen).max() < pd.gray * s:
        return GRAY
    return uncertain(1 - (res ** 2).sum() / (cen ** 2).sum(), np.abs(cen).max() / s)


# ------------------------------------------------------------------------------------------ decision trees
def tree_nodes(tree):
    """sklearn tree -> parent, depth of every node by explicit traversal"""
    left, right, feature = tree.children_left, tree.children_right, tree.feature
    depth = {0: 0}
    order, stack = [], [0]
    kids = {}
    while stack:
        v = stack.pop()
        order.append(v)
        kids[v] = [int(left[v]), int(right[v])] if left[v] != -1 else []
        for c in kids[v]:
            depth[c] = depth[v] + 1
        stack += list(reversed(kids[v]))
    return order, kids, depth, {v: int(feature[v]) for v in order if kids[v]}


def subtree(kids, v):
    out, stack = [], [v]
    while stack:
        w = stack.pop()
        out.append(w)
        stack += list(reversed(kids[w]))
    return out          # preorder


def cond_min_depth_tree(tree, p):
    """{(f1, f2): (value or None, occurred)} for one tree"""
    order, kids, depth, feat = tree_nodes(tree)
    by = {}
    for v in feat:
        by.setdefault(feat[v], []).append(v)
    out = {}
    for f1 in range(p):
        for f2 in range(p):
            if f1 == f2:
                continue
            if f1 not in by or f2 not in by:
                out[f1, f2] = (None, 0)
                continue
            top = min(depth[v] for v in by[f1])
            best, occ = None, 0
            for r in [v for v in by[f1] if depth[v] == top]:
                below = subtree(kids, r)[1:]
                d2 = [depth[v] for v in below if feat.get(v) == f2]
                if d2:
                    val, occ = min(d2) - top - 1, 1
                else:
                    val = depth[below[-1]] - top
                best = val if best is None else min(best, val)
            out[f1, f2] = (best, occ)
    return out


def cond_min_depth(trees, p):
    """{(f1, f2): (mean over trees or nan, number of trees with an occurrence)}"""
    per = [cond_min_depth_tree(t, p) for t in trees]
    out = {}
    for key in per[0] if per else []:
        vals = [d[key][0] for d in per if d[key][0] is not None]
        out[key] = (float(np.mean(vals)) if vals else float("nan"), sum(d[key][1] for d in per))
    return out


def min_depth_importance(trees):
    acc = {}
    for t in trees:
        _, _, depth, feat = tree_nodes(t)
        mins = {}
        for v, f in feat.items():
            mins[f] = min(mins.get(f, 10 ** 9), depth[v])
        for f, d in mins.items():
            acc.setdefault(f, []).append(d)
    return {f: float(np.mean(v)) for f, v in acc.items()}
