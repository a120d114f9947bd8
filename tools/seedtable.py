#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows = []
for f in glob.glob("seeded/*/meta.json"):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (m["property"], f.split("/")[1], m["needs"]))
ls = open("DESIGN.md").read().split("\n")
a = ls.index("| caught by | change | what it needs |")
b = a + 2
while ls[b].startswith("| C"):
    b += 1
ls[a + 2:b] = sorted(rows)
open("DESIGN.md", "w").write("\n".join(ls))
print(len(rows))
