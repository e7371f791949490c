"""Rewrite the tables of planted bugs and repairs in DESIGN.md: python3 tools/table.py"""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | breaks | when | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append(f"| {os.path.basename(d)} | {m['what_it_breaks']} | {m['needs']} | {m['property']} |")
fixed = [f"* {x.removeprefix('fixed: property=')}" for x in json.load(open(V + "/known_findings.json"))["fixed"]]
t = open(V + "/DESIGN.md").read()
for mark, lines in (("planted", rows), ("repaired", fixed)):
    a, b = f"<!-- {mark} -->\n", f"<!-- end {mark} -->"
    i, j = t.index(a) + len(a), t.index(b)
    t = t[:i] + "\n".join(lines) + "\n" + t[j:]
open(V + "/DESIGN.md", "w").write(t)
