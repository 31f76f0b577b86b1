#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (a development aid; no check uses it)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = set(open(V + "/tools/missed.txt").read().split()) if os.path.exists(V + "/tools/missed.txt") else set()
rows = ["| Seeded bug | Check | Needs |", "|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/" + d + "/meta.json"))
    rows.append("| %s | %s %s | %s |" % (d, m["property"], "missed" if d in missed else "caught", m["needs"]))
s = open(V + "/DESIGN.md").read()
s = re.sub(r"(<!-- table made by tools/seedtable.py -->\n).*?(\n<!-- end -->)", lambda m: m[1] + "\n".join(rows) + m[2], s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
