#!/usr/bin/env python3
"""stage2.py SURVIVORS BASE OUT N WORKERS [CASES_DIVISOR]: runs all checks against mutants that survived the tests.
SURVIVORS is the output of stage1.py; BASE is the tree that the mutants' offsets refer to. Mutants of files that
/repo has changed since are merged. Writes per mutant the check that caught it, or "" if none did."""
import json, sys, os, random, subprocess, shutil, threading, queue, re
here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
surv, base, outp, n, w = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5])
div = int(sys.argv[6]) if len(sys.argv) > 6 else 12
quick = {}
for f in os.listdir(here + "/harness/checks"):
    for m in re.finditer(r'ID: "(C\d\d)".*?Quick: (\d+)', open(here + "/harness/checks/" + f).read(), re.S): quick[m[1]] = int(m[2])
order = {
  "transformer": "C18 C17 C15 C16 C14 C19 C09 C12 C01 C24",
  "lexer": "C05 C06 C12 C08 C01 C21 C03 C04 C17 C24",
  "parser": "C05 C17 C03 C21 C04 C12 C08 C16 C18 C06 C01 C24",
  "printer": "C05 C03 C08 C04 C06 C07 C17 C24",
  "resolver": "C13 C09 C22 C23", "esbuildplugin": "C20", "logging": "C12 C20 C22", "sources": "C12 C08 C20 C24",
  "api.go": "C02 C09 C10 C11 C22 C23 C01 C12", "cli": "C22",
}
def ids(file):
    first = next((v.split() for k, v in order.items() if k in file), [])
    if os.environ.get("ALL"): return first + [i for i in sorted(quick) if i not in first]
    return first
muts = [json.loads(l) for l in open(surv)]
muts = [m for m in muts if m["result"] == "survived"]
def source_line(m): return open(base + "/" + m["file"]).read().split("\n")[m["line"] - 1]
# Messages are not specified.
muts = [m for m in muts if "tokens.go" not in m["file"] and not re.search(r"Errorf|Wrapf|addError|addWarn", source_line(m))]
random.Random(7).shuffle(muts)
done = set()
if os.path.exists(outp):
    for l in open(outp): done.add(json.loads(l)["id"])
q = queue.Queue()
for m in muts[:n]:
    if m["id"] not in done: q.put(m)
lock = threading.Lock(); out = open(outp, "a")
def sh(cmd, t=300, env={}):
    try:
        p = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], capture_output=True, text=True, errors="replace", timeout=t, env={**os.environ, **env})
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired: return 124, "timeout"
def worker(k):
    d = "/tmp/mut/t%d" % k; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    sh("cp -a /repo %s/repo; mkdir %s/verif; cp %s/known_findings.jsonl %s/verif/; cp -r %s/corpus %s/verif/; sed 's#=> /repo#=> %s/repo#' %s/harness/go.mod >%s/go.mod; cp %s/harness/go.sum %s/" % (d, d, here, d, here, d, d, here, d, here, d))
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        p = d + "/repo/" + m["file"]; cur = open(p, "rb").read(); s = open(base + "/" + m["file"], "rb").read()
        mut = s[:m["start"]] + m["new"].encode() + s[m["end"]:]
        if s == cur: open(p, "wb").write(mut)
        else:
            open(d + "/old", "wb").write(s); open(d + "/mut", "wb").write(mut)
            if sh("git merge-file %s %s/old %s/mut" % (p, d, d))[0]: open(p, "wb").write(cur); continue
        m["by"] = ""; m["diff"] = sh("cd %s/repo && git diff -U0 | tail -n +6" % d)[1]
        rc, log = sh("cd %s/harness && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0 go build -modfile %s/go.mod -o %s/check ./cmd/check" % (here, d, d))
        if rc: m["by"] = "nobuild"
        else:
            for i in ids(m["file"]):
                rc, log = sh("timeout 280 %s/check -id %s -tier quick -seed 1 -verif %s/verif" % (d, i, d), env={"VERIF_CASES": str(max(quick[i] // div, 60))})
                if "VIOLATION" in log: m["by"] = i; break
                if rc: m["by"] = "%s rc=%d" % (i, rc); break
        open(p, "wb").write(cur)
        with lock: out.write(json.dumps(m) + "\n"); out.flush()
    shutil.rmtree(d, ignore_errors=True)
ts = [threading.Thread(target=worker, args=(k,)) for k in range(w)]
[t.start() for t in ts]; [t.join() for t in ts]
