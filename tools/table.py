#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(os.path.join(V, "tools", "caught.json")))
rows = ["| change | property | needs | caught by |", "|----|----|----|----|"]
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    i = os.path.basename(os.path.dirname(m))
    rows.append(f"| {i} | {d['property']} | {d['needs']} | {caught.get(i, '(not run)')} |")
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
a, b = "<!-- table -->\n", "<!-- end of table -->"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
