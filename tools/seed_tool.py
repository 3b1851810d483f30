#!/usr/bin/env python3
"""Makes and tries planted bugs (no check uses this).

seed_tool.py make SRC.py [ids...]   write seeded/<id>/ from SRC.py's entries
seed_tool.py try [ids...]           build, tests, demo on both trees, checks, in a mount namespace
"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = V + "/seeded"
DEMO = """#!/bin/bash
# exit 0: the property holds; anything else: it does not
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%%s": "%%s"}}' "$PWD/%(dir)szz_demo_test.go" "$here/demo_test.go" > "$tmp/overlay.json"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off
go test -count=1 -vet=off %(flags)s-timeout 200s -overlay "$tmp/overlay.json" -run '^TestDemo$' ./%(dir)s
"""
def load(p):
    s = importlib.util.spec_from_file_location("src", p); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m.SEEDS
def make(src, ids):
    for e in load(src):
        if ids and e["id"] not in ids: continue
        d = SEEDS + "/" + e["id"]; os.makedirs(d, exist_ok=True)
        tmp = tempfile.mkdtemp()
        try:
            subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
            subprocess.check_call("git -C /repo archive HEAD | tar x -C " + tmp, shell=True)
            subprocess.check_call("git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm base", shell=True, cwd=tmp)
            for f, old, new in e["edits"]:
                t = open(tmp + "/" + f).read()
                assert t.count(old) == 1, (e["id"], f, t.count(old), old)
                open(tmp + "/" + f, "w").write(t.replace(old, new))
                subprocess.call(["gofmt", "-w", tmp + "/" + f])
            diff = subprocess.check_output(["git", "diff"], cwd=tmp, text=True)
            open(d + "/patch.diff", "w").write(diff)
        finally: shutil.rmtree(tmp)
        open(d + "/demo_test.go", "w").write(e["demo"].lstrip())
        open(d + "/demo.sh", "w").write(DEMO % {"dir": e.get("dir", ""), "flags": e.get("flags", "")})
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": e["prop"], "needs": e["needs"], "what_it_breaks": e["breaks"]}, open(d + "/meta.json", "w"), indent=1)
def ns(d, cmd, timeout=900):
    p = subprocess.Popen(["unshare", "-m", "bash", "-c", "mount --bind %s/repo /repo; cd /repo; %s" % (d, cmd)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try: o, _ = p.communicate(timeout=timeout); return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate(); return 124, "timeout"
def attempt(i, check=True, only=False):
    meta = json.load(open("%s/%s/meta.json" % (SEEDS, i)))
    d = tempfile.mkdtemp(prefix="seedtry")
    out = [i, meta["property"]]
    try:
        subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
        sd = d + "/elsewhere"; shutil.copytree(SEEDS + "/" + i, sd)
        for x in ("patch.diff", "meta.json"): os.remove(sd + "/" + x)
        if not only:
            rc, o = ns(d, "bash %s/demo.sh" % sd); out.append("clean=%d" % rc)
            if rc: print(o[-1500:])
        subprocess.check_call(["git", "-C", d + "/repo", "apply", "%s/%s/patch.diff" % (SEEDS, i)])
        if not only:
            rc, o = ns(d, "bash /opt/vp/build.sh"); out.append("build=%d" % rc)
            if rc: print(o[-1500:])
            rc, o = ns(d, "bash /opt/vp/test.sh %s/t.json" % d)
            try:
                t = json.load(open(d + "/t.json")); base = json.load(open("/opt/vp/BASELINE.json"))
                bl = base.get("stable") or base.get("passed") or base
                failed = t.get("failed", [])
                out.append("failed=%s" % failed)
            except Exception as ex: out.append("tests? %r" % ex)
            rc, o = ns(d, "bash %s/demo.sh" % sd); out.append("demo=%d" % rc)
            if rc == 0: print("DEMO DOES NOT FAIL", i)
            elif "--- FAIL" not in o and "panic" not in o and "DATA RACE" not in o and "deadlock" not in o: print(o[-800:])
        if check:
            import time; t0 = time.time()
            rc, o = ns(d, "cd /verif && bin/check %s" % meta["property"]); out.append("check=%d (%.0fs)" % (rc, time.time() - t0))
            out.append([l for l in o.splitlines() if "VIOLATION" in l][:1])
            if rc not in (0, 1): print(o[-1500:])
    finally: shutil.rmtree(d)
    print(*out, flush=True)
if sys.argv[1] == "make": make(sys.argv[2], sys.argv[3:])
else:
    a = [x for x in sys.argv[2:] if not x.startswith("-")] or sorted(os.listdir(SEEDS))
    for i in a: attempt(i, "--no-check" not in sys.argv, "--only-check" in sys.argv)
