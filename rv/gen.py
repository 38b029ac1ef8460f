"""Workload generators: hostile but in-scope data sets and models with known, exactly computable predictions.

Every model here is a pure function of the encoded row, built only from element-wise operations, so that the
prediction of a row does not depend on the batch it is part of; the oracles evaluate the same function directly.
"""
import zlib

import numpy as np
import pandas as pd

NAME_POOLS = [
    ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n"],
    ["x1", "x10", "x11", "x2", "x12", "x100", "x20", "x21", "x3", "x13", "x4", "x5", "x6", "x7"],
    ["1", "11", "111", "12", "21", "2", "22", "10", "0", "01", "3", "33", "4", "44"],
    ["a", "ab", "b", "bb", "ba", "aa", "aab", "abb", "A", "B", "Ab", "aB", "abc", "c"],
    ["MedInc", "House Age", "Ave-Rooms", "Ave.Bedrms", "pop_1", "Feature", "Lat:it", "lat", "Leaf", "tree", "depth",
     "value", "gain", "id"],
    ["z", "y", "x", "w", "v", "u", "t", "s", "r", "q", "p", "o", "n", "m"],
    ["a", "a:b", "b", "b:c", "c", "a-b", "b-c", "c:a", "a ", " b", ":", "-", "a,b", "(a, b)"],      # joined names collide
    ["ą", "ß", "ż", "é", "ñ", "ø", "λ", "μ", "日", "本", "語", "ç", "ü", "Ω"],
]
RESERVED = {"Feature 1", "Feature 2"}
BIG = 2 ** 53
WORDS = ["red", "blue", "green", "r", "re", "", "Zed", "10", "9", "1", "a b"]


def code_of(word):
    """fixed pseudo-random number of a category, multiple of 1/8 (2 and 2.0 are the same category)"""
    if not isinstance(word, str):
        word = str(float(word))
    return (zlib.crc32(str(word).encode()) % 47 - 23) / 8.0


assert len({code_of(w) for w in WORDS}) == len(WORDS) and len({code_of(k) for k in range(0, 18, 2)}) == 9


def column_names(case, p, safe=False):
    pool = case.choice(NAME_POOLS[:2] if safe else NAME_POOLS)
    names = list(pool)
    while len(names) < p:                 # very wide data
        names.append(f"{pool[len(names) % len(pool)]}_{len(names)}")
    if case.flip(0.6):
        case.rng.shuffle(names)
    return names[:p]


def make_index(case, n):
    kind = case.choice(["default", "default", "shuffled", "offset", "strings", "duplicated", "float", "dates", "reversed", "multi"])
    if kind == "default":
        idx = pd.RangeIndex(n)
    elif kind == "shuffled":
        idx = pd.Index(case.rng.permutation(n))
    elif kind == "reversed":
        idx = pd.Index(np.arange(n)[::-1])
    elif kind == "offset":
        idx = pd.Index(np.arange(n) * 3 + 100)
    elif kind == "strings":
        idx = pd.Index([f"row{v}" for v in case.rng.permutation(n)])
    elif kind == "duplicated":
        idx = pd.Index(case.rng.integers(0, max(1, n // 3) + 1, n))
    elif kind == "float":
        idx = pd.Index(case.rng.permutation(n) + 0.5)
    elif kind == "multi":
        idx = pd.MultiIndex.from_arrays([case.rng.choice(["u", "v"], n), case.rng.integers(0, n, n)])
    else:
        idx = pd.date_range("2020-01-01", periods=n)[case.rng.permutation(n)]
    return kind, idx


def make_column(case, n, kind, uniques=None):
    """-> (values, type) with type in num / bool / cat"""
    rng = case.rng
    u = uniques or int(rng.integers(2, max(2, min(n, 9)) + 1))
    if kind == "continuous":
        scale = case.choice([1.0, 1.0, 1.0, 1e-3, 1e3])
        v = np.round(rng.normal(size=n) * 64) / 64 * scale + case.choice([0.0, 0.0, 5.0, -3.0])
        return v, "num"
    if kind == "permuted":
        return rng.permutation(n) / 8.0 - case.choice([0.0, 3.0]), "num"
    if kind == "grid":           # ties
        grid = rng.permutation(np.arange(-12, 13))[:u] / 4
        v = rng.choice(grid, n)
        return (np.where((v == 0) & (rng.random(n) < 0.5), -0.0, v) if case.flip(0.2) else v), "num"          # two zeros, one value
    if kind == "int":
        return rng.integers(-u, u + 1, n), "num"
    if kind == "int8":
        return rng.integers(0, u + 1, n).astype(np.int8), "num"
    if kind == "float32":
        return (np.round(rng.normal(size=n) * 8) / 8).astype(np.float32), "num"
    if kind == "constant":
        return np.full(n, case.choice([0.0, 1.5, -2.0])), "num"
    if kind == "binary":
        return rng.integers(0, 2, n), "num"
    if kind == "skewed":         # one rare value
        v = np.zeros(n)
        v[int(rng.integers(n))] = case.choice([1.0, -7.0, 1000.0])
        return v, "num"
    if kind == "close":          # distinct values that are almost equal
        base, step = case.choice([(1000.0, 2.0 ** -10), (1.0, 2.0 ** -20), (0.0, 2.0 ** -34), (-250.0, 2.0 ** -12), (1e6, 0.5)])
        return base + rng.integers(-u, u + 1, n) * step, "num"
    if kind == "bigint":         # neighbours that are the same number in floating point
        return BIG + rng.integers(0, 2 * u + 1, n), "num"
    if kind == "sized":
        t = case.choice([np.int16, np.int32, np.uint16, np.uint32, np.uint64, np.float16])
        return rng.integers(0, 2 * u + 1, n).astype(t), "num"
    if kind == "uint8":
        return rng.choice(np.array([0, 1, 2, 127, 128, 250, 255])[:max(2, u)], n).astype(np.uint8), "num"
    if kind == "bool":
        return rng.integers(0, 2, n).astype(bool), "bool"
    if kind == "numcat":         # numbers as categories are no numerical feature
        v = rng.integers(0, u, n) * 2
        return pd.Categorical(v, categories=sorted(set(v)), ordered=case.flip(0.3)), "cat"
    words = list(rng.permutation(WORDS)[:max(1, min(u, len(WORDS)))])
    if kind == "string":
        return np.array([str(w) for w in rng.choice(words, n)], dtype=object), "cat"
    if kind == "category":
        cats = sorted(set(str(w) for w in words)) if case.flip() else [str(w) for w in words]
        v = [str(w) for w in rng.choice(words, n)]
        used = [c for c in cats if c in set(v)] if case.flip(0.7) else cats         # categories that never occur
        return pd.Categorical(v, categories=used, ordered=case.flip(0.3)), "cat"
    raise AssertionError(kind)


NUM_KINDS = ["continuous", "continuous", "continuous", "grid", "grid", "grid", "int", "int", "binary", "binary", "skewed", "float32",
             "int8", "constant", "close", "uint8", "sized", "bigint"]
MIX_KINDS = NUM_KINDS + ["bool", "bool", "string", "string", "string", "category", "category", "numcat"]


class Data:
    """A data frame, the type of every column, and the encoding of rows the models compute on."""

    def __init__(self, X, types):
        self.X, self.types = X, types
        self.cols = list(X.columns)
        self.M = encode(X, types)

    @property
    def n(self):
        return len(self.X)

    def sub(self, X):
        return Data(X, self.types)

    def describe(self):
        return {"rows": self.n, "columns": self.cols, "types": [self.types[c] for c in self.cols],
                "dtypes": [str(t) for t in self.X.dtypes], "uniques": [len(set(self.M[:, j])) for j in range(len(self.cols))]}


def encode(X, types):
    out = np.empty((len(X), X.shape[1]), dtype=float)
    for j, c in enumerate(X.columns):
        col = X.iloc[:, j]
        if types[c] == "cat":
            vals = col.astype(object).values
            table = {w: code_of(w) for w in set(vals)}
            out[:, j] = [table[w] for w in vals]
        else:
            v = col.values
            if v.dtype == object:
                v = np.array([q - BIG if q >= BIG else q for q in v], dtype=float)
            elif v.dtype.itemsize == 8 and len(v) and v.max() >= BIG:
                v = np.where(v >= BIG, v - np.array(BIG, dtype=v.dtype), v)
            out[:, j] = v.astype(float)
    return out


BOXES = ["column", "series", "plain_series", "list", "frame"]


def boxed(y, X, box):
    """predictions as models of other packages return them"""
    if box is None or y.ndim > 1:
        return y
    return {"column": lambda: y[:, None], "series": lambda: pd.Series(y, index=X.index), "plain_series": lambda: pd.Series(y),
            "list": lambda: y.tolist(), "frame": lambda: pd.DataFrame({"prediction": y}, index=X.index)}[box]()


def make_data(case, n=None, p=None, kinds=None, max_uniques=None, names=None, index=True, dup_rows=True, safe_names=False):
    rng = case.rng
    n = n or int(rng.integers(2, 26))
    p = p or int(rng.integers(2, 7))
    names = names or column_names(case, p, safe=safe_names)
    kinds = kinds or (NUM_KINDS if case.flip(0.55) else MIX_KINDS)
    cols, types = {}, {}
    for c in names:
        k = case.choice(kinds)
        if max_uniques is not None and k in ("continuous", "float32", "int", "close"):
            k = "grid"
        v, t = make_column(case, n, k, uniques=int(rng.integers(min(2, max_uniques), max_uniques + 1)) if max_uniques else None)
        cols[c], types[c] = v, t
    X = pd.DataFrame(cols)
    if dup_rows and n > 3 and case.flip(0.2):
        pos = np.arange(n)
        pos[int(rng.integers(n))] = int(rng.integers(n))
        X = X.iloc[pos].reset_index(drop=True)
    if index:
        kind, idx = make_index(case, n)
        X.index = idx
        if kind in ("strings", "default", "shuffled") and case.flip(0.3):
            X.index.name = case.choice(["key", "index", str(names[0]), str(names[-1])])       # also the name of a column
        if case.flip(0.15):
            X.columns.name = case.choice(["features", str(names[0])])
    return Data(X, types)


def huge_data(case, p=None):
    """more rows than the default batch size of 2000, few distinct values"""
    return make_data(case, n=case.choice([1999, 2000, 2001, case.randint(2002, 2600)]), p=p or case.randint(2, 3),
                     kinds=["grid", "binary", "skewed", "bool", "string", "int8"], max_uniques=3, dup_rows=False)


def very_wide_data(case, n=None):
    return make_data(case, n=n or case.randint(2, 5), p=case.randint(20, 36), max_uniques=2)


def many_values(case, n=None, p=None):
    """(almost) every row has its own values"""
    n = n or case.randint(101, 160)
    data = make_data(case, n=n, p=p or 2, kinds=["permuted", "permuted", "continuous", "binary"], dup_rows=False)
    return data


# ---------------------------------------------------------------------------------------------------- functions
class Fn:
    """Sum of random terms over encoded columns; callable on an encoded matrix."""

    def __init__(self, terms, offset=0.0, scale=1.0, step=None):
        self.terms, self.offset, self.scale, self.step = terms, offset, scale, step

    def __call__(self, M):
        y = np.zeros(len(M))
        for kind, cols, coef, par in self.terms:
            y = y + coef * _term(kind, [M[:, c] for c in cols], par)
        if self.step:
            y = np.floor(y / self.step) * self.step
        return self.offset + self.scale * y

    def used(self):
        return sorted({c for _, cols, _, _ in self.terms for c in cols})

    def describe(self):
        return {"terms": [[k, list(map(int, c)), float(w), jsonish(p)] for k, c, w, p in self.terms],
                "offset": self.offset, "scale": self.scale, "step": self.step}


def jsonish(p):
    return [float(v) for v in np.ravel(p)] if p is not None else None


def _main(x, par):
    m = int(par[0]) % 5
    if m == 0:
        return x
    if m == 1:
        return np.abs(x - par[1])
    if m == 2:
        return (x > par[1]).astype(float)
    if m == 3:
        return x * x
    return np.floor(x) - par[1]


def _term(kind, xs, par):
    if kind == "main":
        return _main(xs[0], par)
    if kind == "product":
        return _main(xs[0], par) * _main(xs[1], par[2:])
    if kind == "max":
        return np.maximum(xs[0], xs[1])
    if kind == "and":
        return ((xs[0] > par[1]) & (xs[1] > par[3])).astype(float)
    if kind == "xor":
        return ((xs[0] > par[1]) ^ (xs[1] > par[3])).astype(float)
    if kind == "needle":         # exactly one combination of observed values matters
        return ((xs[0] == par[1]) & (xs[1] == par[3])).astype(float)
    if kind == "triple":
        return _main(xs[0], par) * _main(xs[1], par[2:]) * _main(xs[2], par[4:])
    raise AssertionError(kind)


def make_fn(case, data, additive=False, ncols=None, scaled=True):
    rng = case.rng
    p = ncols or data.M.shape[1]
    terms = []

    def par(cols):
        out = []
        for c in cols:
            out += [float(rng.integers(5)), float(rng.choice(data.M[:, c]))]
        return out

    active = [j for j in range(p) if case.flip(0.85)] or [0]
    for j in active:
        if case.flip(0.8):
            terms.append(("main", [j], case.choice([-1, 1]) * float(rng.integers(1, 9)) / 4, par([j])))
    if not additive and len(active) > 1:
        dense = case.flip(0.5)
        every = [[a, b] for i, a in enumerate(active) for b in active[i + 1:]]
        todo = [list(rng.permutation(q)) for q in every if case.flip(0.8)] if dense else []
        todo += [rng.permutation(active)[:2] for _ in range(int(rng.integers(1, 4)))]
        for cols in todo:
            cols = [int(c) for c in cols]
            kind = case.choice(["product", "product", "max", "and", "xor", "needle"])
            terms.append((kind, cols, case.choice([-1, 1]) * float(rng.integers(1, 9)) / 2, par(cols)))
        if len(active) > 2 and case.flip(0.3):
            cols = [int(c) for c in rng.permutation(active)[:3]]
            terms.append(("triple", cols, float(rng.integers(-4, 5)) / 2, par(cols)))
    offset, scale = 0.0, 1.0
    if scaled:
        offset = case.choice([0.0, 0.0, 0.0, 1.0, -20.0, 1000.0, 1e5, -3e6])
        scale = case.choice([1.0, 1.0, 1.0, 1e-3, 1e-2, 50.0, -1.0])
    return Fn(terms, offset, scale, step=case.choice([None, None, None, 0.5]) if not additive else None)


# ---------------------------------------------------------------------------------------------------- models
class Call:
    __slots__ = ("how", "X", "y")

    def __init__(self, how, X, y):
        self.how, self.X, self.y = how, X, y


class Recorder:
    """Client-boundary log of every query: who was asked, with what, and what was answered."""

    def __init__(self, keep=True):
        self.calls, self.keep, self.n_calls, self.n_rows = [], keep, 0, 0

    def __call__(self, how, X, y):
        self.n_calls += 1
        self.n_rows += len(X)
        if self.keep:
            self.calls.append(Call(how, X.copy(), y))

    def reset(self):
        self.calls, self.n_calls, self.n_rows = [], 0, 0


class Regressor:
    """model with predict only"""

    def __init__(self, fn, types, rec=None, dtype=float, fail_at=None, box=None):
        self.box = box
        self.fn, self.types, self.rec, self.dtype, self.fail_at, self.k = fn, types, rec, dtype, fail_at, 0

    def _out(self, how, X, fn):
        self.k += 1
        if self.fail_at is not None and self.k == self.fail_at:
            raise InjectedFault(f"query {self.k}")
        y = np.asarray(fn(encode(X, self.types)), dtype=self.dtype)
        if self.rec is not None:
            self.rec(how, X, y)
        return boxed(y, X, self.box)

    def predict(self, X):
        return self._out("predict", X, self.fn)


class InjectedFault(Exception):
    pass


def _squash(y):
    return y / (1.0 + np.abs(y)) / 2 + 0.5       # element-wise, into (0, 1)


class Classifier(Regressor):
    """model with predict (labels) and predict_proba (k classes)"""

    def __init__(self, fn, types, rec=None, classes=2, **kw):
        super().__init__(fn, types, rec, **kw)
        self.classes = classes

    def proba1(self, M):
        return _squash(self.fn(M))

    def predict_proba(self, X):
        def fn(M):
            p1 = self.proba1(M)
            rest = (1 - p1) / (self.classes - 1)
            out = np.repeat(rest[:, None], self.classes, axis=1)
            out[:, 1] = p1
            if self.classes > 2:
                out[:, 2] *= 0.5
                out[:, 0] += out[:, 2]
            return out
        return self._out("predict_proba", X, fn)

    def labels(self, M):
        return (self.proba1(M) > 0.5).astype(int)

    def predict(self, X):
        return self._out("predict", X, self.labels)


def user_function(fn, types, rec=None, dtype=float, box=None):
    def predict_function(model, X):
        y = np.asarray(fn(encode(X, types)), dtype=dtype)
        if rec is not None:
            rec("user", X, y)
        return boxed(y, X, box)
    return predict_function


class Setup:
    """model + predict_function argument + the function they compute (on encoded rows) + tolerance"""

    def __init__(self, model, predict_function, fn, how, rtol, rec):
        self.model, self.predict_function, self.fn, self.how, self.rtol, self.rec = \
            model, predict_function, fn, how, rtol, rec

    def kwargs(self):
        return {} if self.predict_function is None else {"predict_function": self.predict_function}


def make_setup(case, data, fn=None, rec=None, allow_float32=True, how=None, fail_at=None):
    fn = fn or make_fn(case, data)
    how = how or case.choice(["predict", "predict", "predict_proba", "user"])
    dtype = float
    if allow_float32 and case.flip(0.08):
        dtype = np.float32
    rtol = 1e-7 if dtype is float else 2e-4
    box = case.choice(BOXES) if case.flip(0.12) else None
    if how == "predict":
        model = Regressor(fn, data.types, rec, dtype=dtype, fail_at=fail_at, box=box)
        return Setup(model, None, fn, how, rtol, rec)
    if how == "predict_proba":
        model = Classifier(fn, data.types, rec, classes=case.choice([2, 2, 3]), dtype=dtype, fail_at=fail_at)
        return Setup(model, None, model.proba1, how, rtol, rec)
    other = make_fn(case, data)
    model = (Classifier if case.flip() else Regressor)(other, data.types, rec, fail_at=fail_at)
    return Setup(model, user_function(fn, data.types, rec, dtype, box), fn, how, rtol, rec)


def feature_subset(case, cols, least=1):
    """None, or a list of columns in any order (sometimes reversed / shuffled / partial), as list"""
    if case.flip(0.45):
        return None
    k = case.randint(min(least, len(cols)), len(cols))
    return [str(c) for c in case.rng.permutation(cols)[:k]]


def batchsize(case, n, default_p=0.25):
    if case.flip(default_p):
        return {}
    return {"batchsize": int(case.choice([1, 2, n - 1 or 1, n, n + 1, 2 * n, 2 * n - 1, 3 * n, 5 * n + 1, 7 * n,
                                          max(1, n // 2), 10 * n, 100, 10 ** 6]))}
