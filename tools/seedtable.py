#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/seed_results.json."""
import json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(os.path.join(here, "tools", "seed_results.json")))
rows = ["| bug | property | what it breaks | result |", "|----|----|----|----|"]
for m in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(m)); x = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (i, x["property"], x["what_it_breaks"].replace("|", "\\|"), res.get(i, "?")))
p = os.path.join(here, "DESIGN.md"); s = open(p).read()
a, b = s.index("<!-- table -->"), s.index("<!-- end -->")
open(p, "w").write(s[:a] + "<!-- table -->\n" + "\n".join(rows) + "\n" + s[b:])
