#!/usr/bin/env python3
"""Writes known_findings.jsonl: the findings that are recorded, and the fix commits in /repo."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = [
 dict(property="C04", status="known", what="sums in math functions are printed without the whitespace around + and -, which browsers require: calc(1px + 2px) becomes calc(1px+2px) (locked in by a printer test)", files={"in.css": "a{b:calc(1px + 2px)}"}, opts=""),
 dict(property="C07", status="known", what="calc(1px + 2px) is printed as calc(1px+2px), which is no sum when it is compiled again", files={"in.css": "a{b:calc(1px + 2px)}"}, opts=""),
 dict(property="C05", status="known", what="@custom-media definitions are dropped although the transform is off (locked in by a printer test)", files={"in.css": "@custom-media --a print;a{b:c}"}, opts=""),
 dict(property="C19", status="known", what="@custom-media definitions are dropped although the transform is off (locked in by a printer test)", files={"in.css": "@custom-media --a print;a{b:c}"}, opts=""),
 dict(property="C12", status="known", what="the underline is shifted by the tabs that follow the construct on its line (locked in by a logging test)", files={"in.css": "a{b:var(--u)\tc}"}, opts="p", kind="var(--u)"),
]
# subject of the fix commit -> properties that it repaired
F = {}
for line in open(os.path.join(here, "tools", "fixes.txt")):
    line = line.strip()
    if line:
        p, subject = line.split(" ", 1)
        F[subject] = p.split(",")
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "20b3496..HEAD"], capture_output=True, text=True, check=True).stdout
for line in log.strip().split("\n"):
    h, s = line.split(" ", 1)
    what = s.removeprefix("fix: ")
    for p in F[what]:
        K.append(dict(property=p, status="fixed", commit=h, what="fixed: property=%s %s %s" % (p, h, what)))
with open(os.path.join(here, "known_findings.jsonl"), "w") as f:
    for k in K:
        f.write(json.dumps(k) + "\n")
print(len(K), "entries")
