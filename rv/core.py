"""Case runner: seeds, worker pool, verdicts, evidence and replay files.

A check is a list of scenarios.  A scenario is a function `scenario(case)` that drives the real code
of /repo with a workload drawn from `case.rng` and lets monitors / oracles judge what was observed:
`case.check(cond, msg, **details)` records one oracle evaluation and raises `Violation` if it failed.

Verdicts are three-valued:
  exit 0   property held on everything observed
  exit 1   violated, with a line `VIOLATION property=<id> replay=<path>`
  exit 2   inconclusive: error of the harness itself or a deciding monitor that was never reached
"""
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings
import zlib

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get("RV_EVIDENCE", os.path.join(ROOT, "evidence"))
ARTEMIS_DIR = os.path.join(os.environ.get("RV_REPO", "/repo"), "artemis")


class Violation(Exception):
    def __init__(self, message, details=None):
        super().__init__(message)
        self.message = message
        self.details = details or {}


class Stuck(BaseException):
    """Watchdog: one case used far more processor time than any case of the workloads needs."""


CASE_CPU_SECONDS = 150


def _stuck(signum, frame):
    raise Stuck(f"no result within {CASE_CPU_SECONDS} s of processor time")


class Skip(Exception):
    """The generated case is outside the scope of the property (counted, never a verdict)."""


def jsonable(obj, depth=0):
    import pandas as pd
    if depth > 6:
        return repr(obj)[:200]
    if isinstance(obj, (str, bool, int, float)) or obj is None:
        return obj
    if isinstance(obj, np.generic):
        return obj.item() if not isinstance(obj, np.void) else repr(obj)
    if isinstance(obj, np.ndarray):
        return jsonable(obj.tolist(), depth + 1) if obj.size <= 400 else f"array{obj.shape}"
    if isinstance(obj, pd.DataFrame):
        if obj.size > 400:
            return f"DataFrame{obj.shape}"
        return {"columns": [str(c) for c in obj.columns], "index": jsonable(list(obj.index), depth + 1),
                "rows": jsonable(obj.astype(object).values.tolist(), depth + 1)}
    if isinstance(obj, (pd.Series, pd.Index)):
        return jsonable(list(obj)[:200], depth + 1)
    if isinstance(obj, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(obj.items())[:100]}
    if isinstance(obj, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in list(obj)[:200]]
    return repr(obj)[:300]


class Case:
    """One execution: its random source, and what the monitors observed in it."""

    def __init__(self, prop, seed, scenario, index, tier):
        self.prop, self.seed, self.scenario, self.index, self.tier = prop, seed, scenario, index, tier
        self.rng = _default_rng([seed, zlib.crc32(f"{prop}/{scenario}".encode()), index])
        self.counters = {}
        self.signature = None
        self.info = {}

    def count(self, name, k=1):
        self.counters[name] = self.counters.get(name, 0) + int(k)

    def note(self, **kw):
        self.info.update(kw)

    def sign(self, *parts):
        """Signature of a non-trivial case (equal signature = not a distinct case)."""
        self.signature = "|".join(str(p) for p in parts)

    def check(self, cond, message, counter="oracle_evaluations", **details):
        self.count(counter)
        if not bool(cond):
            raise Violation(message, details)

    def close(self, observed, expected, message, rtol=1e-7, atol=1e-9, counter="oracle_evaluations", **details):
        """Elementwise comparison, NaN equal to NaN."""
        obs, exp = np.asarray(observed, dtype=float), np.asarray(expected, dtype=float)
        self.count(counter, max(1, obs.size))
        if obs.shape != exp.shape:
            raise Violation(message + " (shape)", dict(details, observed=obs, expected=exp))
        ok = np.isclose(obs, exp, rtol=rtol, atol=atol, equal_nan=True)
        if not ok.all():
            bad = tuple(np.argwhere(~ok)[0]) if obs.ndim else ()
            raise Violation(message, dict(details, at=bad, observed_at=obs[bad], expected_at=exp[bad],
                                          observed=obs, expected=exp))

    # deterministic choice helpers -------------------------------------------------
    def choice(self, seq):
        return seq[int(self.rng.integers(len(seq)))]

    def flip(self, p=0.5):
        return bool(self.rng.random() < p)

    def randint(self, lo, hi):
        """lo <= value <= hi"""
        return int(self.rng.integers(lo, hi + 1))


def _artemis_frames(tb):
    return [f"{f.filename}:{f.lineno} {f.name}" for f in traceback.extract_tb(tb) if f.filename.startswith(ARTEMIS_DIR)]


_default_rng = np.random.default_rng


def deterministic_entropy(seed, prop, scenario, index):
    """Generators without a random state draw their entropy from the case, so that every case can be replayed."""
    drawn = [0]

    def default_rng(random_state=None):
        if random_state is None:
            drawn[0] += 1
            random_state = [seed, zlib.crc32(f"entropy/{prop}/{scenario}".encode()), index, drawn[0]]
        return _default_rng(random_state)

    np.random.default_rng = default_rng


def run_case(prop, seed, scenario_name, fn, index, tier):
    case = Case(prop, seed, scenario_name, index, tier)
    deterministic_entropy(seed, prop, scenario_name, index)
    res = {"scenario": scenario_name, "index": index, "status": "held"}
    t0 = time.time()
    signal.signal(signal.SIGVTALRM, _stuck)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_SECONDS)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                fn(case)
    except Violation as v:
        res.update(status="violated", message=v.message, details=jsonable(v.details))
    except Skip as s:
        res.update(status="skipped", message=str(s))
    except (Exception, Stuck) as e:  # noqa
        frames = _artemis_frames(e.__traceback__)
        if frames:
            # the code under test failed on an input that is inside the scope of the property
            res.update(status="violated", message=f"unexpected {type(e).__name__}: {e}",
                       details={"artemis_frames": frames[-6:], "traceback": traceback.format_exc()[-4000:]})
        elif isinstance(e, (LookupError, AttributeError, TypeError, ValueError)):
            # the observed result has not the documented shape (missing row, column, attribute, not a number, ...);
            # on the unchanged tree no case ends here (sweeps over seeds in DESIGN.md)
            res.update(status="violated", message=f"the observed result cannot be read: {type(e).__name__}: {e}",
                       details={"traceback": traceback.format_exc()[-4000:]})
        else:
            res.update(status="error", message=traceback.format_exc())
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        np.random.default_rng = _default_rng
        try:
            import matplotlib.pyplot as plt
            plt.close("all")
        except Exception:
            pass
    res["counters"] = case.counters
    res["signature"] = case.signature
    res["info"] = jsonable(case.info)
    res["wall"] = time.time() - t0
    return res


QUICK_FACTOR = 2        # the numbers of the scenarios are the cases a quick run is designed for; it goes on up to twice as many
QUICK_SOFT_S = 150      # ... unless this time has passed (and the required minima were observed)


class Check:
    """prop: property id; scenarios: {name: (function, quick cases, thorough cases)}."""

    def __init__(self, prop, title, scenarios, required, rule, level="exploration", assumptions=()):
        self.prop, self.title, self.scenarios = prop, title, scenarios
        self.required = dict(required)   # counter -> minimum that must be observed for a verdict "held"
        self.rule, self.level, self.assumptions = rule, level, list(assumptions)

    def plan(self, tier):
        todo = []
        for name, (fn, quick, thorough) in self.scenarios.items():
            n = QUICK_FACTOR * quick if tier == "quick" else thorough
            todo += [((i + 0.5) / n, name, i) for i in range(n)]
        todo.sort()          # interleave the scenarios, so that an early stop still saw all of them
        return [(name, i) for _, name, i in todo]


_CHECK = None
_SEED = None
_TIER = None


def _silence():
    """progress bars (show_progress=True is part of the workloads) must not flood stderr"""
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 2)
    os.dup2(devnull, 1)


def _worker(item):
    name, index = item
    return run_case(_CHECK.prop, _SEED, name, _CHECK.scenarios[name][0], index, _TIER)


def run_check(check, tier, seed, budget_s, procs=None, stop=5):
    global _CHECK, _SEED, _TIER
    _CHECK, _SEED, _TIER = check, seed, tier
    t0 = time.time()
    for stale in (f"{check.prop}.replay.json", f"{check.prop}.json"):
        if os.path.exists(os.path.join(EVIDENCE, stale)):
            os.remove(os.path.join(EVIDENCE, stale))
    todo = check.plan(tier)
    procs = procs or max(1, min(8, os.cpu_count() or 1))
    results, cut, seen = [], False, {}
    ctx = mp.get_context("fork")
    with ctx.Pool(procs, initializer=_silence) as pool:
        it = pool.imap_unordered(_worker, todo, chunksize=1)
        while True:
            left = budget_s - (time.time() - t0)
            try:
                res = it.next(timeout=max(1.0, left))
            except StopIteration:
                break
            except mp.TimeoutError:
                cut = True
                break
            results.append(res)
            for k, v in res["counters"].items():
                seen[k] = seen.get(k, 0) + v
            if (tier == "quick" and time.time() - t0 > QUICK_SOFT_S and 2 * len(results) > len(todo) / QUICK_FACTOR
                    and all(seen.get(k, 0) >= v for k, v in check.required.items())):
                cut = True
                break
            if sum(r["status"] == "violated" for r in results) >= stop:
                cut = True
                break
        pool.terminate()
    results.sort(key=lambda r: (r["scenario"], r["index"]))
    return finish(check, tier, seed, results, len(todo), cut, time.time() - t0)


def finish(check, tier, seed, results, planned, cut, wall):
    counters, statuses, per_scenario, sigs = {}, {}, {}, {}
    for r in results:
        statuses[r["status"]] = statuses.get(r["status"], 0) + 1
        s = per_scenario.setdefault(r["scenario"], {"cases": 0, "wall_s": 0.0})
        s["cases"] += 1
        s["wall_s"] = round(s["wall_s"] + r["wall"], 2)
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        if r["signature"] and r["status"] != "skipped":
            sigs[r["scenario"] + "|" + r["signature"]] = r
    violated = [r for r in results if r["status"] == "violated"]
    errors = [r for r in results if r["status"] == "error"]
    samples, seen = [], set()
    for key, r in sigs.items():
        if r["scenario"] not in seen:
            seen.add(r["scenario"])
            samples.append({"scenario": r["scenario"], "case": r["index"], "signature": r["signature"],
                            "observed": r["info"], "counters": r["counters"]})
    missing = {k: [counters.get(k, 0), v] for k, v in check.required.items() if counters.get(k, 0) < v}
    evidence = {
        "property": check.prop, "tier": tier, "seed": seed, "level": check.level,
        "coverage": {
            "evaluations": len(results), "distinct_nontrivial": len(sigs), "rule": check.rule,
            "samples": samples[:8] or [{"note": "no non-trivial case observed"}],
            "planned_cases": planned, "stopped_early": cut, "case_statuses": statuses,
            "scenarios": per_scenario, "monitor_counters": counters,
            "required_minimum": check.required, "not_reached": missing,
        },
        "assumptions": check.assumptions, "wall_s": round(wall, 2), "violations": len(violated),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, f"{check.prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1, default=repr)
    print(f"{check.prop} [{tier}, seed {seed}] {len(results)}/{planned} cases, {len(sigs)} distinct, "
          f"{counters.get('oracle_evaluations', 0)} oracle evaluations, {wall:.1f} s, {statuses}")
    if violated:
        r = violated[0]
        path = os.path.join(EVIDENCE, f"{check.prop}.replay.json")
        with open(path, "w") as f:
            json.dump({"property": check.prop, "seed": seed, "tier": tier, "scenario": r["scenario"],
                       "index": r["index"], "message": r["message"], "details": r.get("details"), "info": r["info"],
                       "how": f"./check {check.prop} --replay {path}",
                       "other": [{k: v.get(k) for k in ("scenario", "index", "message")} for v in violated[1:]]},
                      f, indent=1, default=repr)
        for v in violated[:3]:
            print(f"  {v['scenario']}#{v['index']}: {v['message']}")
        print(f"VIOLATION property={check.prop} replay={path}")
        return 1
    if errors:
        print("INCONCLUSIVE: harness error\n" + errors[0]["message"])
        return 2
    if missing:
        print(f"INCONCLUSIVE: monitors not reached often enough (observed, required): {missing}")
        return 2
    return 0
