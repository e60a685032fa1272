#!/usr/bin/env python3
"""Validates planted bugs and writes /verif/seeded/<id>/: run.py [ids...] [--nocheck] [--seed N]"""
import subprocess, sys, os, json, shutil
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__)); verif = os.path.dirname(os.path.dirname(here))
BUGS = []
def bug(id, prop, edits, needs, breaks, check, race=False, also=()):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, check=check, race=race, also=also))
for f in sorted(os.listdir(here)):
    if f.startswith("bugs") and f.endswith(".py"): exec(open(os.path.join(here, f)).read())
ENV = ". /opt/vp/env.sh; "
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, executable="/bin/bash", **k)
def mine():
    log = set(sh("git -C /repo log --format=%H 20b3496..HEAD").stdout.split())
    return log
MINE = mine()
def blame(f):
    out = sh("git -C /repo blame --line-porcelain %s" % f).stdout; r = {}; h = n = None
    import re
    for l in out.split("\n"):
        if re.match(r"^[0-9a-f]{40} ", l): h = l[:40]; n = int(l.split()[2])
        elif l.startswith("\t"): r[n] = h in MINE
    return r
def process(b, checks=True, seed=1):
    d = "/tmp/sb/" + b["id"]; shutil.rmtree(d, ignore_errors=True); os.makedirs("/tmp/sb", exist_ok=True)
    sh("cp -a /repo %s" % d); msg = []
    try:
        for f, o, n in b["edits"]:
            p = os.path.join(d, f); s = open(p).read()
            if s.count(o) != 1: return b["id"], "EDIT matches %d times: %r" % (s.count(o), o)
            open(p, "w").write(s.replace(o, n))
        sh("cd %s && %s gofmt -w $(git diff --name-only)" % (d, ENV)) if False else None
        diff = sh("git -C %s diff" % d).stdout
        # removed lines must be original ones
        f = None; bad = []; removed = 0
        for l in diff.split("\n"):
            if l.startswith("--- a/"): f = l[6:]; bl = blame(f)
            elif l.startswith("@@"): n = int(l.split()[1].split(",")[0][1:])
            elif l.startswith("-") and not l.startswith("---"):
                removed += 1
                if bl[n]: bad.append("%s:%d" % (f, n))
                n += 1
            elif l.startswith(" "): n += 1
        if bad: msg.append("MINE " + " ".join(bad))
        if not removed: msg.append("NO-REMOVED")
        out = os.path.join(verif, "seeded", b["id"]); os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        shutil.copy(here + "/demo.sh", out + "/demo.sh")
        open(out + "/main.go", "w").write(open(here + "/prelude.go.txt").read()); open(out + "/check.go", "w").write("package main\n\n" + b["check"].strip() + "\n")
        if b["race"]: open(out + "/race", "w").write("")
        elif os.path.exists(out + "/race"): os.remove(out + "/race")
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(out + "/meta.json", "w"), indent=1)
        r = sh("cd /verif/harness && PATH=$PATH:/root/go/bin goimports -w %s/check.go" % out)
        r = sh(ENV + "cd %s && go build ./... && go vet ./... >/dev/null 2>&1; go build ./..." % d)
        if r.returncode: return b["id"], "BUILD " + r.stderr[:400]
        r = sh("sed 's#^cd /repo#cd %s#' /opt/vp/test.sh > /tmp/sb/%s.test.sh; bash /tmp/sb/%s.test.sh /tmp/sb/%s.json" % (d, b["id"], b["id"], b["id"]))
        base = json.load(open("/opt/vp/BASELINE.json")); res = json.load(open("/tmp/sb/%s.json" % b["id"]))
        stable = base.get("passed") or base.get("stable") or base.get("tests")
        passed = set(res["passed"]); missing = [t for t in (stable or []) if t not in passed]
        if len(passed) < 51 or missing: msg.append("TESTS %d %s" % (len(passed), missing[:3]))
        r = sh("cd /repo && bash %s/demo.sh" % out)
        if r.returncode: msg.append("DEMO-CLEAN %d %s" % (r.returncode, (r.stdout + r.stderr)[:400]))
        r = sh("cd %s && bash %s/demo.sh" % (d, out))
        if r.returncode == 0 or r.returncode > 2 and not b["race"]: msg.append("DEMO-BUG %d %s" % (r.returncode, (r.stdout + r.stderr)[:400]))
        if checks:
            for c in (b["prop"],) + tuple(b["also"]):
                r = sh("VERIF_SEED=%d LINES_MAX=2 COLS_MAX=200 %s/tools/on.sh %s %s" % (seed, verif, d, c))
                msg.append("%s %s" % (c, "caught" if "VIOLATION property=" + c in r.stdout else "MISSED " + r.stdout[:200] + r.stderr[-300:]))
        if any(m.split()[0] in ("MINE", "NO-REMOVED", "TESTS", "DEMO-CLEAN", "DEMO-BUG") for m in msg): shutil.rmtree(out)
        return b["id"], "; ".join(msg)
    finally:
        shutil.rmtree(d, ignore_errors=True)
if __name__ == "__main__":
    args = sys.argv[1:]; checks = "--nocheck" not in args; seed = 1
    if "--seed" in args: i = args.index("--seed"); seed = int(args[i + 1]); del args[i:i + 2]
    ids = [a for a in args if not a.startswith("--")]
    todo = [b for b in BUGS if not ids or b["id"] in ids]
    with ThreadPoolExecutor(3) as ex:
        for i, m in ex.map(lambda b: process(b, checks, seed), todo): print(i, m, flush=True)
