"""Workload and trace oracle for performance based methods (permutations).

Every column holds pairwise distinct values, so that each queried cell identifies the row it came from:
the set of permuted columns, the row order and whether a pair was permuted jointly can be read off the query log.
"""
import numpy as np
import pandas as pd

from . import gen
from artemis._utilities.domain import ProblemType
from artemis._utilities.performance_metrics import MSE, RMSE, Accuracy, Metric


def long_data(case):
    """more rows than any usual shortcut needs"""
    return unique_data(case, n=case.choice([1001, 2001, case.randint(600, 2600), 5003]), p=5)


def unique_data(case, n=None, p=None):
    n = n or case.randint(12, 24)
    p = p or case.randint(5, 7)
    names = gen.column_names(case, p)
    cols = {}
    for c in names:
        v = case.rng.permutation(n)
        k = case.choice(["int", "float", "offset", "string"])
        cols[c] = {"int": v, "float": v / 4.0 - 1, "offset": v * 3 + 10, "string": np.array([f"w{q:03d}" for q in v], dtype=object)}[k]
    X = pd.DataFrame(cols)
    X.index = gen.make_index(case, n)[1]
    return X


class Tracer:
    """maps every queried cell back to the row of the original data"""

    def __init__(self, X):
        self.cols = list(X.columns)
        self.where = [{v: i for i, v in enumerate(X.iloc[:, j])} for j in range(X.shape[1])]
        self.events = []

    def read(self, Q):
        """-> (rows, permuted columns, jointly permuted)"""
        if list(Q.columns) != self.cols:
            raise AssertionError("columns of the query")
        R = np.array([[self.where[j][v] for v in Q.iloc[:, j]] for j in range(len(self.cols))])
        # the row order is the one most columns agree on
        agree = [sum(np.array_equal(R[a], R[b]) for b in range(len(R))) for a in range(len(R))]
        base = int(np.argmax(agree))
        permuted = [j for j in range(len(R)) if not np.array_equal(R[j], R[base])]
        joint = all(np.array_equal(R[permuted[0]], R[j]) for j in permuted) if permuted else True
        whole = all(sorted(R[j]) == sorted(R[base]) for j in permuted)
        return R[base], frozenset(self.cols[j] for j in permuted), joint, whole, tuple(tuple(R[j]) for j in permuted)


class TraceModel:
    """answers with a pseudo-random, deterministic prediction and logs the query"""

    def __init__(self, tracer, salt, n, labels=None, box=None):
        self.t, self.labels, self.box = tracer, labels, box
        self.coef = np.random.default_rng(salt).normal(size=(len(tracer.cols), n))
        self.pair = np.random.default_rng(salt + 1).normal(size=(len(tracer.cols), len(tracer.cols)))

    def predict(self, Q):
        rows, S, joint, whole, perms = self.t.read(Q)
        R = np.array([[self.t.where[j][v] for v in Q.iloc[:, j]] for j in range(len(self.t.cols))])
        E = np.array([self.coef[j][R[j]] for j in range(len(R))])
        y = E.sum(axis=0) + 0.7 * np.einsum("in,ij,jn->n", E, self.pair, E)
        y = np.round(y, 6)
        if self.labels is not None:
            y = self.labels[(y > 0).astype(int)]
        self.t.events.append({"rows": rows, "S": S, "joint": joint, "whole": whole, "perms": perms, "y": y})
        return gen.boxed(y, Q, self.box)


def formula(metric, y_true, y_hat):
    """the metrics of the package, from their definitions"""
    if isinstance(metric, (RMSE, MSE)):
        y_hat, y_true = y_hat.astype(float), y_true.astype(float)
    if isinstance(metric, RMSE):
        return float(np.sqrt(np.mean((y_hat - y_true) ** 2)))
    if isinstance(metric, MSE):
        return float(np.mean((y_hat - y_true) ** 2))
    if isinstance(metric, Accuracy):
        return float(np.mean(y_true == y_hat))
    return metric.plain(y_true, y_hat)


class MAE(Metric):
    """user defined"""

    def __init__(self):
        super().__init__(ProblemType.REGRESSION)

    @staticmethod
    def plain(y_true, y_hat):
        return float(np.mean(np.abs(np.ravel(y_true) - np.ravel(y_hat))))

    def calculate(self, y_true, y_hat):
        return self.plain(y_true, y_hat)


class R2(Metric):
    """user defined score to be maximised"""

    def __init__(self):
        super().__init__(ProblemType.CLASSIFICATION)

    @staticmethod
    def plain(y_true, y_hat):
        y_true, y_hat = np.ravel(y_true), np.ravel(y_hat)
        return float(1 - np.sum((y_true - y_hat) ** 2) / 100.0)

    def calculate(self, y_true, y_hat):
        return self.plain(y_true, y_hat)


def make_metric(case):
    return case.choice([RMSE, MSE, MAE, Accuracy, R2])()


def make_labels(case, metric):
    """class labels of any type, for metrics that compare labels"""
    if isinstance(metric, (RMSE, MSE)) and case.flip(0.2):         # grades in a small type
        return case.choice([np.array([3, 200], dtype=np.uint8), np.array([-100, 100], dtype=np.int8), np.array([-20000, 30000], dtype=np.int16),
                            np.array([False, True]), np.array([7, 100000], dtype=np.int32)])
    if not isinstance(metric, Accuracy):
        return None
    kind = case.choice(["int", "int", "bool", "float", "close", "object", "object", "long"])
    return {"int": np.array([0, 1]), "bool": np.array([False, True]), "float": np.array([-1.0, 1.0]), "close": np.array([1.0, 1.0 + 1e-9]),
            "object": np.array(["no", "yes"], dtype=object), "long": np.array([10 ** 6, 10 ** 6 + 1])}[kind]


def make_box(case):
    return case.choice(gen.BOXES) if case.flip(0.15) else None


def make_target(case, n, labels, index):
    y = labels[case.rng.integers(0, 2, n)] if labels is not None else np.round(case.rng.normal(size=n) * 3, 3)
    kind = case.choice(["array", "array", "series", "series", "series_index", "series_index", "series_shuffled", "series_shuffled",
                        "list", "column", "frame", "category"])
    if kind == "array":
        return y, y
    if kind == "list":
        return y, list(y)
    if kind == "column":
        return y, y[:, None]
    if kind == "frame":
        return y, pd.DataFrame({"target": y}, index=index if case.flip() else None)
    if kind == "category" and labels is not None and labels.dtype == object:
        return y, pd.Series(y, dtype="category")
    if kind == "series":
        return y, pd.Series(y)
    if kind == "series_index":
        return y, pd.Series(y, index=index)
    return y, pd.Series(y, index=case.rng.permutation(n) + 7)


# ---------------------------------------------------------------------------------- deterministic mode
class SetModel:
    """prediction = row id + w(set of permuted columns); independent of the actual permutation"""

    def __init__(self, tracer, salt, box=None):
        self.t, self.salt, self.cache, self.problems, self.box = tracer, salt, {}, [], box

    def w(self, S, joint=True):
        key = (tuple(sorted(S)), bool(joint))
        if key not in self.cache:
            import zlib
            self.cache[key] = ((zlib.crc32(repr((self.salt, key)).encode()) % 1023) + 0.5) / 1024
        return self.cache[key]

    def predict(self, Q):
        rows, S, joint, whole, _ = self.t.read(Q)
        if not whole:
            self.problems.append("a changed column is not a permutation")
        return gen.boxed(rows + self.w(S, joint), Q, self.box)


class SetMetric(Metric):
    """reads w(S) from the prediction, watches that targets and predictions belong to the same rows"""

    def __init__(self, problem, y_of_row, problems):
        super().__init__(problem)
        self.y_of_row, self.problems = y_of_row, problems
        self.n = 0

    def calculate(self, y_true, y_hat):
        self.n += 1
        y_true, y_hat = np.ravel(y_true), np.ravel(y_hat)
        rows = np.floor(y_hat).astype(int)
        if len(y_true) != len(y_hat) or not np.array_equal(y_true, self.y_of_row[rows]):
            self.problems.append("targets and predictions of different rows are compared")
        return float(y_hat[0] - rows[0])
