"""setup_cmd: the environment has what the checks need, and the oracles agree with closed forms.

Nothing of /repo is executed here: what the code under test does is decided by the checks alone."""
import importlib
import os

import numpy as np


def main():
    for mod in ("numpy", "pandas", "sklearn", "xgboost", "lightgbm", "networkx", "seaborn", "matplotlib"):
        importlib.import_module(mod)
    from rv import core, oracles
    os.makedirs(core.EVIDENCE, exist_ok=True)

    # closed forms for f = x * z on a balanced grid (x, z in {-1, 1}): pure interaction
    M = np.array([[-1.0, -1], [-1, 1], [1, -1], [1, 1]])
    pd = oracles.PD(lambda Q: Q[:, 0] * Q[:, 1], M)
    assert abs(oracles.h_ovo(pd, 0, 1) - 1) < 1e-12 and abs(oracles.h_ova(pd, 0) - 1) < 1e-12
    assert abs(oracles.additivity(pd)) < 1e-12 and oracles.pd_importance(pd, 0, True) == 0
    # f = 2 x + 3 z: additive
    pd = oracles.PD(lambda Q: 2 * Q[:, 0] + 3 * Q[:, 1], M)
    assert abs(oracles.h_ovo(pd, 0, 1)) < 1e-12 and abs(oracles.h_ova(pd, 1)) < 1e-12 and abs(oracles.additivity(pd) - 1) < 1e-12
    assert abs(oracles.pd_importance(pd, 0, True) - 2) < 1e-12 and abs(oracles.pd_importance(pd, 1, False) - 1.5) < 1e-12
    assert abs(oracles.greenwell(pd, 0, 1, True, True)) < 1e-12

    # a stump-like hand-made tree: root splits feature 0, its left child feature 1, leaves elsewhere
    class Tree:
        children_left = np.array([1, 2, -1, -1, -1])
        children_right = np.array([4, 3, -1, -1, -1])
        feature = np.array([0, 1, -2, -2, -2])
    assert oracles.cond_min_depth([Tree], 2)[0, 1] == (0.0, 1)
    assert oracles.min_depth_importance([Tree]) == {0: 0.0, 1: 1.0}

    # the runner: three-valued verdicts
    def bad(case):
        case.check(False, "no")

    def fine(case):
        case.check(True, "yes")
    assert core.run_case("C00", 1, "s", bad, 0, "quick")["status"] == "violated"
    assert core.run_case("C00", 1, "s", fine, 0, "quick")["status"] == "held"
    print("selftest ok")
    return 0
