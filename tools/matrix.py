"""Runs checks against scratch copies of /repo with a planted bug (RV_REPO), by hand only.

usage: matrix.py [--all] [--jobs N] [--out FILE] BUG ...     without --all only the check of the bug's own property
       BUG: id under /verif/seeded or path of a .diff (with --all, or the property after '=': path=C07)
"""
import argparse
import json
import os
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [json.loads(line)["id"] for line in open(os.path.join(ROOT, "properties.jsonl"))]


def one(bug, props, tier, seed):
    patch, prop = (bug.split("=") + [None])[:2]
    if not patch.endswith(".diff"):
        folder = os.path.join(ROOT, "seeded", patch)
        prop = json.load(open(os.path.join(folder, "meta.json")))["property"]
        patch = os.path.join(folder, "patch.diff")
    work = tempfile.mkdtemp(prefix="matrix.", dir="/tmp")
    copy = os.path.join(work, "repo")
    try:
        os.makedirs(copy)
        subprocess.run(f"git -C /repo archive HEAD | tar -x -C {copy}", shell=True, check=True)
        subprocess.run(["git", "apply", "--directory", os.path.relpath(copy, "/"), "--unsafe-paths", patch], cwd="/", check=True)
        out = {}
        for p in props or [prop]:
            r = subprocess.run([os.path.join(ROOT, "check"), p, "--tier", tier, "--seed", str(seed)], capture_output=True, text=True,
                               env=dict(os.environ, RV_REPO=copy, RV_EVIDENCE=os.path.join(work, "ev")))
            out[p] = (r.returncode, [x for x in r.stdout.splitlines() if x.startswith("  ")][:1])
        return bug, prop, out
    finally:
        shutil.rmtree(work)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--all", action="store_true")
    ap.add_argument("--jobs", type=int, default=2)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--out")
    ap.add_argument("bugs", nargs="*")
    a = ap.parse_args()
    bugs = a.bugs or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    result = {}
    with ThreadPoolExecutor(a.jobs) as ex:
        for bug, prop, out in ex.map(lambda b: one(b, PROPS if a.all else None, a.tier, a.seed), bugs):
            hit = [p for p, (rc, _) in out.items() if rc == 1]
            odd = {p: rc for p, (rc, _) in out.items() if rc not in (0, 1)}
            print(f"{os.path.basename(bug):42s} {prop} {'CAUGHT' if prop in hit else 'MISSED'} by {' '.join(hit)} {odd or ''}", flush=True)
            for p, (rc, msg) in out.items():
                if p == prop and msg:
                    print("      ", msg[0].strip(), flush=True)
            result[os.path.basename(bug)] = {"property": prop, "caught_by": hit}
    if a.out:
        json.dump(result, open(a.out, "w"), indent=1)


main()
