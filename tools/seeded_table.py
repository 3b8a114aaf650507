#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(HERE, "seeded")
rows = ["| planted bug | check that catches it | needs |", "|---|---|---|"]
for d in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, d, "meta.json")))
    rows.append("| %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/")))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
mark = "<!-- seeded table -->\n"
s = s[:s.index(mark) + len(mark)] + "\n".join(rows) + "\n"
open(p, "w").write(s)
