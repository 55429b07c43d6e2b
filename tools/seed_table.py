"""Rewrite the table of planted bugs at the end of DESIGN.md."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {}   # id -> why the check of its property does not report it
rows = []
for m in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    d = json.load(open(m))
    i = os.path.basename(os.path.dirname(m))
    rows.append((d["property"], i, d["what_it_breaks"].replace("|", "/"), MISSED.get(i, d["property"])))
rows.sort()
txt = open(ROOT + "/DESIGN.md").read().split("<!-- seeded -->")[0].replace(
    "\n(see the end of this file)\n", "")
txt = txt.rstrip() + "\n\n<!-- seeded -->\n\n| bug | what it breaks | caught by |\n|---|---|---|\n"
txt += "".join(f"| {i} | {w} | {c} |\n" for _, i, w, c in rows)
open(ROOT + "/DESIGN.md", "w").write(txt)
