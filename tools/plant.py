"""Turns a specification of planted bugs into /verif/seeded/<id>/ after confirming each in a scratch copy of /repo.

usage: plant.py SPEC.py [id ...]     SPEC.py defines BUGS: id -> dict(property, needs, breaks, edits=[(file, old, new)], demo)
"""
import difflib
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
DEMO_SH = '''#!/bin/bash
# run in the directory of the repository; exit 0: the property holds, 1: it is broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf -- "$T"' EXIT
MPLCONFIGDIR="$T" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" /opt/venv/bin/python -W ignore "$D/demo.py"
'''


def run_demo(folder, cwd):
    r = subprocess.run(["bash", os.path.join(folder, "demo.sh")], cwd=cwd, capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    work = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    copy = os.path.join(work, "repo")
    try:
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        for bid, b in bugs.items():
            if only and bid not in only:
                continue
            subprocess.run(["git", "-C", copy, "checkout", "-q", "--", "."], check=True)
            touched = {}
            for path, old, new in b["edits"]:
                full = os.path.join(copy, path)
                s = open(full, newline="").read()
                assert s.count(old) == 1, (bid, path, s.count(old), old)
                open(full, "w", newline="").write(s.replace(old, new))
                touched[path] = True
            patch = subprocess.run(["git", "-C", copy, "diff"], capture_output=True, text=True, check=True).stdout
            folder = os.path.join(SEEDED, bid)
            os.makedirs(folder, exist_ok=True)
            with open(os.path.join(folder, "patch.diff"), "w", newline="") as f:
                f.write(patch)
            with open(os.path.join(folder, "demo.sh"), "w") as f:
                f.write(DEMO_SH)
            os.chmod(os.path.join(folder, "demo.sh"), 0o755)
            with open(os.path.join(folder, "demo.py"), "w") as f:
                f.write(b["demo"].lstrip("\n"))
            with open(os.path.join(folder, "meta.json"), "w") as f:
                json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, f, indent=1)
                f.write("\n")
            broken, out1 = run_demo(folder, copy)
            tests = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider",
                                    "test/test_variable_importance.py"], cwd=copy, capture_output=True, text=True,
                                   env=dict(os.environ, PYTHONPATH=copy, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg"))
            subprocess.run(["git", "-C", copy, "checkout", "-q", "--", "."], check=True)
            fine, out2 = run_demo(folder, copy)
            ok = broken not in (0, 3) and fine == 0 and tests.returncode == 0
            print(bid, "OK" if ok else "BAD", f"patched={broken} unpatched={fine} tests={tests.returncode}")
            print("    ", out1.strip().splitlines()[-1:] if ok else out1 + out2 + tests.stdout[-500:])
            if not ok:
                shutil.rmtree(folder)
    finally:
        shutil.rmtree(work)


main()
