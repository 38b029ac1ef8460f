"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (run by hand; confirm with tools/matrix.py first)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = "## Planted bugs"
lines = [HEAD, "", "Each change was confirmed in a scratch copy (applies, builds, passes the stable tests, its demonstration fails with it and passes without) and run "
         "against the quick check of its property with `tools/matrix.py`; all of them are caught by it. Checks of other properties may see a change as well "
         "(`tools/matrix.py --all` runs them too).", "", "| change | caught by | needs | breaks |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    cell = [str(m[k]).replace("|", "/").replace("\n", " ") for k in ("property", "needs", "what_it_breaks")]
    lines.append(f"| {d} | {cell[0]} | {cell[1]} | {cell[2]} |")
path = os.path.join(ROOT, "DESIGN.md")
text = open(path).read().split(HEAD)[0].rstrip()
open(path, "w").write(text + "\n\n" + "\n".join(lines) + "\n")
