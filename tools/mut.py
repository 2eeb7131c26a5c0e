#!/usr/bin/env python3
"""mut.py LIST.py [name...]   LIST.py defines MUTANTS = [(name, "C06 C08", [(file, old, new), ...]), ...]; each is applied to a scratch copy
of /repo and the quick checks named are run on it (development aid; no tests are run)."""
import sys, os, subprocess, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}; exec(open(sys.argv[1]).read(), ns)
for name, props, edits in ns["MUTANTS"]:
    if len(sys.argv) > 2 and name not in sys.argv[2:]: continue
    d = "/tmp/mut-copy-%d" % os.getpid(); shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    try:
        for f, a, b in edits:
            p = os.path.join(d, f); t = open(p).read()
            if t.count(a if not a.startswith("ALL:") else a[4:]) < 1: print("%-30s NO MATCH %s %r" % (name, f, a[:60]), flush=True); break
            open(p, "w").write(t.replace(a, b, 1) if not a.startswith("ALL:") else t.replace(a[4:], b))
        else:
          for prop in props.split():
            t = time.time()
            r = subprocess.run("VERIF_REPO=%s VERIF_OUT=/tmp/mut-out-%d python3 %s/check.py %s quick" % (d, os.getpid(), V, prop), shell=True, capture_output=True, text=True)
            c = "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + prop in r.stdout else "MISSED rc=%d" % r.returncode
            print("%-30s %s %s %.0fs %s" % (name, prop, c, time.time() - t, (r.stdout.strip().split("\n") or [""])[-1][:250] if r.returncode == 1 else r.stdout[-150:] + r.stderr[-600:]), flush=True)
    finally: shutil.rmtree(d, ignore_errors=True); shutil.rmtree("/tmp/mut-out-%d" % os.getpid(), ignore_errors=True)
