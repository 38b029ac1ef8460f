"""Command line of the checks."""
import argparse
import importlib
import importlib.machinery
import json
import os
import sys


# RV_REPO: a scratch copy to be judged instead (only used by hand, to try the checks on changed copies)
REPO = os.environ.get("RV_REPO", "/repo")
if REPO != "/repo":
    sys.path.insert(0, REPO)


def _compile_from_source():
    """Never execute cached bytecode of /repo: an edit with an unchanged mtime must be seen."""
    orig = importlib.machinery.SourceFileLoader.get_code

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        if path.startswith(REPO + "/"):
            return compile(self.get_data(path), path, "exec", dont_inherit=True)
        return orig(self, fullname)

    importlib.machinery.SourceFileLoader.get_code = get_code


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--scenario")
    ap.add_argument("--procs", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--stop", type=int, default=5, help="stop after so many violations")
    args = ap.parse_args()
    sys.dont_write_bytecode = True
    _compile_from_source()
    if args.property == "selftest":
        from rv import selftest
        return selftest.main()
    from rv import core
    try:
        import artemis
        assert list(artemis.__path__)[0] == os.path.join(REPO, "artemis"), artemis.__path__
        module = importlib.import_module(f"rv.checks.{args.property.lower()}")
    except Exception:
        import traceback
        traceback.print_exc()
        print("INCONCLUSIVE: the code under test could not be imported")
        return 2
    check = module.CHECK
    if args.scenario:
        check.scenarios = {k: v for k, v in check.scenarios.items() if k == args.scenario}
        check.required = {}
    if args.replay:
        r = json.load(open(args.replay))
        fn = check.scenarios[r["scenario"]][0]
        res = core.run_case(check.prop, r["seed"], r["scenario"], fn, r["index"], r["tier"])
        print(json.dumps(res, indent=1, default=repr))
        return 1 if res["status"] == "violated" else 0
    budget = args.budget or (600 if args.tier == "quick" else 800)
    return core.run_check(check, args.tier, args.seed, budget, args.procs, args.stop)


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    code = main()
    sys.stdout.flush()
    sys.exit(code)
