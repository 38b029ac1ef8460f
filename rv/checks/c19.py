"""C19: result tables are complete, ordered by strength and agree with the lookup of a single pair."""
import numpy as np

from rv import anyfit
from rv.common import check_sorted
from rv.core import Check


def eq(a, b):
    return (np.isnan(a) and np.isnan(b)) or abs(a - b) <= 1e-12 * max(1.0, abs(a), abs(b))


def fit_once(case, f):
    m = f.m
    cols = list(m.ovo.columns)
    case.check(cols[:2] == [f.f1, f.f2] and m.method in cols, "columns of the pair table", columns=cols)
    rows = f.rows()
    keys = [(a, b) for a, b, _ in rows]
    case.check(len(set(keys)) == len(keys), "no pair is listed twice", rows=keys)
    if f.kind in ("hstat", "greenwell", "sejong"):
        exp = {frozenset((a, b)) for i, a in enumerate(f.features) for b in f.features[i + 1:]}
        case.check({frozenset(k) for k in keys} == exp and len(keys) == len(exp), "one row per pair of requested features",
                   got=keys, features=f.features)
        case.check(not any(np.isnan(v) for *_, v in rows), "no missing values", rows=rows)
        case.check(list(m.features_included) == list(f.features), "features_included are the requested features")
        case.check({frozenset(q) for q in m.pairs} == exp, "pairs are the pairs of requested features")
        case.check(list(m.ovo.index) == list(range(len(rows))), "rows are numbered from the strongest")
        check_sorted(case, [v for *_, v in rows], False, "strongest pair first")
    elif f.kind == "cmd":
        exp = {(a, b) for a in f.names for b in f.names if a != b}
        case.check(set(keys) == exp, "one row per ordered pair of features", got=len(keys), expected=len(exp))
        occ = [int(v) for v in m.ovo["n_occurences"]]
        check_sorted(case, occ, False, "most frequent pairs first")
        for o in set(occ):
            check_sorted(case, [v for (_, _, v), q in zip(rows, occ) if q == o], True, "closest pairs first among equally frequent ones")
        case.check(list(m.features_included) == list(f.names), "features_included are the features of the forest")
    else:
        case.check({a for k in keys for a in k} <= set(f.names), "pairs of model features", got=keys)
        if f.extra["only_def"]:
            case.check(all(a != b for a, b in keys), "an interaction joins two different features", got=keys)
        check_sorted(case, [v for *_, v in rows], f.ascending, "strongest pair first", metric=f.extra["metric"])
        case.check(list(m.ovo.index) == list(range(len(rows))), "rows are numbered from the strongest")
    t = m.feature_importance
    case.check(list(t.columns) == ["Feature", "Importance"] and len(set(t["Feature"])) == len(t), "importance: one row per feature")
    if f.kind in ("hstat", "greenwell", "sejong"):
        case.check(sorted(t["Feature"]) == sorted(f.features), "importance of every requested feature")
    else:
        case.check(set(t["Feature"]) <= set(f.names) and {a for a, b, v in rows if not np.isnan(v)} <= set(t["Feature"]), "importance of the features in use")
    check_sorted(case, t["Importance"], f.importance_ascending, "most important feature first")
    ova = getattr(m, "ova", None)
    if ova is not None:
        case.check(list(ova.columns) == ["Feature", m.method] and sorted(ova["Feature"]) == sorted(f.features), "one versus all: one row per feature")
        check_sorted(case, ova[m.method], False, "strongest feature first")
        case.count("ova_tables")
    for pair, v in f.strengths().items():
        a, b = (list(pair) * 2)[:2]
        for x, y in ((a, b), (b, a)):
            got = anyfit.num(m.interaction_value(x, y))
            case.check(eq(got, v), "the value of a pair does not depend on its order and agrees with the table", pair=(x, y), got=got, table=v)
            case.count("lookups")
    case.count("tables_" + f.kind)
    case.count("rows", len(rows))


def tables(case):
    f = anyfit.fit_any(case, mixed=True, p=case.choice([2, 3, 4, 5, 6, 8]))
    fit_once(case, f)
    case.note(kind=f.kind, features=f.features, options={k: v for k, v in f.extra.items() if isinstance(v, (str, bool))}, rows=f.rows()[:10])
    case.sign(f.kind, len(f.names), tuple(f.features), f.extra.get("metric"), f.extra.get("imp_metric"), f.extra.get("only_def"), len(f.m.ovo))


CHECK = Check(
    "C19", "result tables are complete, ordered and consistent",
    {"tables": (tables, 420, 9000)},
    required={"tables_" + k: 40 for k in anyfit.KINDS} | {"lookups": 1500, "rows": 1500, "ova_tables": 20},
    rule="every method on random data, models and options; distinct by method, features, options and number of rows")
