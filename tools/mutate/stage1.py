#!/usr/bin/env python3
"""stage1.py MUTANTS OUT N WORKERS [SEED]: samples N mutants that build and pass the tests."""
import json, sys, os, random, subprocess, shutil, threading, queue
muts = [json.loads(l) for l in open(sys.argv[1])]; outp = sys.argv[2]; n = int(sys.argv[3]); w = int(sys.argv[4])
for i, m in enumerate(muts): m["id"] = i
random.Random(int(sys.argv[5]) if len(sys.argv) > 5 else 1).shuffle(muts)
muts = [m for m in muts if not (m["file"].endswith("sourcemaps.go") and (m["line"] < 74 or m["line"] > 117))]
done = set()
if os.path.exists(outp):
    for l in open(outp): done.add(json.loads(l)["id"])
q = queue.Queue()
for m in muts[:n]:
    if m["id"] not in done: q.put(m)
lock = threading.Lock(); out = open(outp, "a")
def sh(cmd, t=90):
    try: return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; ulimit -v 12000000; " + cmd], capture_output=True, text=True, timeout=t).returncode
    except subprocess.TimeoutExpired: return 124
def worker(k):
    d = "/tmp/mut/s%d" % k; shutil.rmtree(d, ignore_errors=True); os.makedirs("/tmp/mut", exist_ok=True); subprocess.run(["cp", "-a", "/repo", d])
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        p = os.path.join(d, m["file"]); s = open(p, "rb").read()
        open(p, "wb").write(s[:m["start"]] + m["new"].encode() + s[m["end"]:])
        if sh("cd %s && go build ./..." % d): r = "nobuild"
        elif sh("cd %s && timeout 60 go test -vet=off -timeout 30s ./... " % d): r = "tests"
        else: r = "survived"
        open(p, "wb").write(s); m["result"] = r
        with lock: out.write(json.dumps(m) + "\n"); out.flush()
    shutil.rmtree(d, ignore_errors=True)
ts = [threading.Thread(target=worker, args=(k,)) for k in range(w)]
[t.start() for t in ts]; [t.join() for t in ts]
