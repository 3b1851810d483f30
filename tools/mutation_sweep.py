#!/usr/bin/env python3
"""Looks for small changes of /repo the checks do not notice (no check uses this).

mutation_sweep.py OUT.jsonl [--files a,b] [--sample P] [--lanes N] [--scale X] [--seed N] [--retry FILE]
Each mutant that builds and passes the existing tests is put in the place of /repo in a mount
namespace of its own, and the checks of the properties its file is about are run there.
"""
import json, os, random, subprocess, sys, threading, queue, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
 "callers.go": "C28", "cas_unsafe.go": "C07 C06", "collect/": "C09 C23 C27", "counter.go": "C12",
 "ctx.go": "C02 C01 C04 C05 C06 C07 C26 C28 C25 C27 C08", "dist.go": "C10 C11 C29", "durdist.go": "C10 C11 C29", "floatdist.go": "C10 C11 C29", "intdist.go": "C10 C11 C29",
 "environment/": "C24", "error_names": "C03", "func.go": "C06 C21 C25 C28 C15", "funcset.go": "C06 C27 C01", "funcstats.go": "C01 C26 C03 C06 C27",
 "http/": "C19 C20", "id.go": "C25", "meter.go": "C13 C29", "monotime": "C26", "present/": "C21 C22 C23", "registry.go": "C05 C08 C16 C04 C17 C28 C27", "rng.go": "C11 C10",
 "scope.go": "C15 C16 C29 C28 C27", "span.go": "C04 C05 C26 C21 C27", "spanbag.go": "C05 C04", "spinlock.go": "C04 C05 C27", "stats.go": "C16 C17 C18 C21", "struct.go": "C14 C29",
 "tags.go": "C18 C17 C15", "task.go": "C28 C01 C02", "timer.go": "C26 C29", "trace.go": "C07 C04 C08 C09", "transform.go": "C17", "val.go": "C29",
}
args = sys.argv[1:]
out = args[0]
opts = dict(zip(args[1::2], args[2::2]))
lanes = int(opts.get("--lanes", "2")); sample = float(opts.get("--sample", "1")); scale = opts.get("--scale", "0.5")
rng = random.Random(int(opts.get("--seed", "1")))
ROOT = "/tmp/msweep"
shutil.rmtree(ROOT, ignore_errors=True); os.makedirs(ROOT)
tool = ROOT + "/mutate"
subprocess.check_call(["go", "build", "-o", tool, "."], cwd=V + "/tools/mutate", env=dict(os.environ, GOFLAGS=""))
files = [f for f in subprocess.check_output(["git", "-C", "/repo", "ls-files", "*.go"], text=True).split()
         if not f.endswith("_test.go") and not any(x in f for x in ("examples/", "internal/", "windows", "darwin", "tinygo", "other"))]
if "--files" in opts:
    files = [f for f in files if any(f == x or x.endswith("/") and f.startswith(x) for x in opts["--files"].split(","))]
muts = []
if "--retry" in opts:
    for l in open(opts["--retry"]):
        m = json.loads(l)
        if m["result"] in ("survived", "no answer"): muts.append(m)
else:
    for f in files:
        for l in subprocess.check_output([tool, "-list", f], text=True, cwd="/repo").splitlines():
            m = json.loads(l)
            p = sample * (0.3 if f in ("durdist.go", "floatdist.go", "rng.go") else 1)
            if rng.random() < p: muts.append(m)
    rng.shuffle(muts)
done = set()
if os.path.exists(out):
    for l in open(out):
        m = json.loads(l); done.add((m["file"], m["n"]))
q = queue.Queue()
for m in muts:
    if (m["file"], m["n"]) not in done: q.put(m)
print(q.qsize(), "mutants", flush=True)
lock = threading.Lock(); tally = {}
def checks(f):
    for k, v in MAP.items():
        if f == k or (k.endswith("/") or not k.endswith(".go")) and f.startswith(k): return v.split()
    return []
def run(cmd, timeout, **k):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True, **k)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate()
        return 124, "timeout"
def lane(i):
    d = "%s/lane%d" % (ROOT, i)
    os.makedirs(d)
    shutil.copytree("/repo", d + "/repo", symlinks=True)
    os.makedirs(d + "/verif")
    for x in ("bin", "harness", "known_findings.txt"):
        subprocess.check_call(["cp", "-a", V + "/" + x, d + "/verif/"])
    env = dict(os.environ, GOCACHE=ROOT + "/cache", VERIF_SEED=opts.get("--vseed", "1"), GOPROXY="off", GOTOOLCHAIN="local", GOFLAGS="")
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        f = m["file"]
        orig = open("/repo/" + f).read()
        text = subprocess.check_output([tool, "-apply", str(m["n"]), f], text=True, cwd="/repo")
        open(d + "/repo/" + f, "w").write(text)
        t0 = time.time()
        res = {"file": f, "n": m["n"], "line": m["line"], "desc": m["desc"]}
        rc, o = run(["go", "build", "./..."], 200, cwd=d + "/repo", env=env)
        if rc: res["result"] = "no build"
        else:
            rc, o = run(["go", "test", "-timeout", "60s", "./..."], 120, cwd=d + "/repo", env=env)
            if rc: res["result"] = "killed by tests"
            else:
                res["result"] = "survived"; res["checks"] = []
                for c in checks(f):
                    rc, o = run(["unshare", "-m", "bash", "-c", "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && exec bin/check %s --scale %s --limit 240" % (d, d, c, scale)], 400, env=env)
                    res["checks"].append([c, rc])
                    if rc == 1: res["result"] = "killed"; res["by"] = c; break
                    if rc != 0: res["result"] = "no answer"; res["by"] = c; res["out"] = o[-600:]; break
        open(d + "/repo/" + f, "w").write(orig)
        res["s"] = round(time.time() - t0, 1)
        with lock:
            with open(out, "a") as fh: fh.write(json.dumps(res) + "\n")
            tally[res["result"]] = tally.get(res["result"], 0) + 1
            if res["result"] in ("survived", "no answer"): print(res["result"], f, m["line"], m["desc"], res.get("checks"), flush=True)
ths = [threading.Thread(target=lane, args=(i,)) for i in range(lanes)]
[t.start() for t in ths]; [t.join() for t in ths]
print(tally)
shutil.rmtree(ROOT, ignore_errors=True)
