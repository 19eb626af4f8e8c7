#!/usr/bin/env python3
"""Puts the results of matrix.py (JSON) into DESIGN.md's table (development tool)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for fn in sys.argv[1:]:
    res.update(json.load(open(fn)))
rows = ["| planted bug | property | caught by its check | what it breaks |", "|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    c = res.get(i, {}).get("checks", {})
    others = [p for p in c if c[p] == 1 and p != m["property"]]
    rows.append("| %s | %s | %s%s | %s |" % (i, m["property"], {1: "yes", 0: "no"}.get(c.get(m["property"]), "-"),
                                             " (also %s)" % ", ".join(others) if others else "", m["what_it_breaks"]))
p = V + "/DESIGN.md"
s = open(p).read()
t = "\n".join(rows)
if "@@TABLE@@" in s:
    s = s.replace("@@TABLE@@", "<!-- table -->\n" + t + "\n<!-- end -->")
else:
    a, b = s.index("<!-- table -->"), s.index("<!-- end -->")
    s = s[:a] + "<!-- table -->\n" + t + "\n" + s[b:]
open(p, "w").write(s)
