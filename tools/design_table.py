#!/usr/bin/env python3
"""Rewrites the planted-bug table of DESIGN.md from seeded/*/meta.json and tools/planted_results.json."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(os.path.join(R, "tools", "planted_results.json")))
out = []
out.append("| bug | property | needs | first | now |\n|---|---|---|---|---|")
for d in sorted(os.listdir(os.path.join(R, "seeded"))):
    m = json.load(open(os.path.join(R, "seeded", d, "meta.json")))
    r = res.get(d, {})
    out.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["needs"], r.get("first", "?"), r.get("now", "?")))
p = os.path.join(R, "DESIGN.md")
s = open(p).read()
a, b = s.index("<!-- table -->"), s.index("<!-- /table -->")
open(p, "w").write(s[:a] + "<!-- table -->\n" + "\n".join(out) + "\n" + s[b:])
