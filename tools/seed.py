#!/usr/bin/env python3
"""seed.py make ID PROP FILE OLD NEW ...  (called from scripts)   /   seed.py verify ID...   /   seed.py check ID [PROP]
Plants a bug in a scratch copy of /repo, confirms it (builds, stable tests pass, demo 0/non-zero) and runs a check on it."""
import sys, os, json, subprocess, shutil, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
DEMO = '''#!/bin/bash
# exits 0 if the behaviour is right; run in the repository after the build
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -O1 -w -fno-access-control -Iinclude -Isrc -I. -I"$D" "$D/demo.cpp" $(find bin/src -name '*.o') -lpthread -o "$T/demo" || exit 99
timeout 120 "$T/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def copy(tag):
    d = "/tmp/seed-" + tag
    shutil.rmtree(d, ignore_errors=True)
    sh("cp -a /repo %s" % d); return d
def make(i, prop, edits, needs, breaks, demo):
    d = copy(i); os.makedirs(os.path.join(S, i), exist_ok=True)
    for f, a, b in edits:
        t = open(os.path.join(d, f)).read()
        assert t.count(a) == 1, (i, f, t.count(a), a)
        open(os.path.join(d, f), "w").write(t.replace(a, b))
    diff = sh("git -C %s diff" % d).stdout
    open(os.path.join(S, i, "patch.diff"), "w").write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(S, i, "meta.json"), "w"), indent=1)
    open(os.path.join(S, i, "demo.sh"), "w").write(DEMO)
    open(os.path.join(S, i, "demo.cpp"), "w").write(demo)
    shutil.copy(os.path.join(V, "tools", "demo_env.h"), os.path.join(S, i, "demo_env.h"))
    shutil.rmtree(d)
def verify(i, check=True):
    d = copy(i)
    try:
        r = sh("git apply %s/%s/patch.diff" % (S, i), cwd=d)
        if r.returncode: return print(i, "PATCH FAILS", r.stderr)
        for f in ("build.sh", "test.sh"):
            t = open("/opt/vp/" + f).read().replace("/opt/vp/build.sh", d + "/bin/vp/build.sh").replace("/repo", d)
            open(d + "/bin/vp/" + f, "w").write(t)
        r = sh("bash bin/vp/build.sh", cwd=d)
        if r.returncode: return print(i, "BUILD FAILS", r.stderr[-1500:])
        sh("bash bin/vp/test.sh /tmp/seed-%s.json" % i, cwd=d)
        o = json.load(open("/tmp/seed-%s.json" % i)); os.unlink("/tmp/seed-%s.json" % i)
        miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(o["passed"])
        good = sh("bash %s/%s/demo.sh" % (S, i), cwd="/repo"); bad = sh("bash %s/%s/demo.sh" % (S, i), cwd=d)
        ok = not miss and good.returncode == 0 and bad.returncode not in (0, 99)
        print(i, "OK" if ok else "NOT OK", "tests missing:", sorted(miss)[:4], "demo clean rc=%d bug rc=%d" % (good.returncode, bad.returncode), (good.stderr + good.stdout)[-600:] if good.returncode else "", (bad.stderr+bad.stdout)[-300:], flush=True)
        if ok and check: run(i, d)
        return ok
    finally: shutil.rmtree(d, ignore_errors=True)
def run(i, d, prop=None):
    prop = prop or json.load(open("%s/%s/meta.json" % (S, i)))["property"]
    t = time.time()
    r = sh("VERIF_REPO=%s VERIF_OUT=/tmp/seed-out python3 %s/check.py %s quick" % (d, V, prop))
    print("   ", i, prop, "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + prop in r.stdout else "MISSED rc=%d" % r.returncode, "%.0fs" % (time.time() - t), (r.stdout.strip().split("\n") or [""])[0][:300] if r.returncode == 1 else r.stdout[-200:] + r.stderr[-500:], flush=True)
if __name__ == "__main__":
    cmd = sys.argv[1]
    if cmd == "verify":
        for i in sys.argv[2:]: verify(i)
    elif cmd == "check":
        i = sys.argv[2]; d = copy(i)
        try:
            assert sh("git apply %s/%s/patch.diff" % (S, i), cwd=d).returncode == 0
            for p in sys.argv[3:] or [None]: run(i, d, p)
        finally: shutil.rmtree(d, ignore_errors=True)
