#!/usr/bin/env python3
"""dev.py FAMILY PROP [shard-args...]   record one shard and validate it, printing rejected clauses (development aid)."""
import sys, os, collections, json, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, tlc, registry, subprocess
fam = registry.FAMILIES[sys.argv[1]](); prop = sys.argv[2]; args = sys.argv[3:]
t = time.time(); exe = fam.exe(); print("build %.1f" % (time.time() - t))
out = "/tmp/dev-%s.ndjson" % sys.argv[1]
t = time.time(); r = subprocess.run([exe, *args, "--out", out]); print("record %.1f rc=%d size=%d" % (time.time() - t, r.returncode, os.path.getsize(out)))
t = time.time()
rc, o = tlc.run(fam.module, None, dict(TRACE_FILE=out, VERIF_PROP=prop), 1, "6g")
print("validate %.1f rc=%s %s" % (time.time() - t, rc, tlc.stats(o)))
if rc != 0: print(o[-3500:]); sys.exit()
c = collections.Counter(); first = {}
L = open(out).readlines()
for ti, k, b in tlc.BAD.findall(o):
    import re
    for cl in re.findall(r'\\?"([^"\\]+)\\?"', b):
        c[cl] += 1; first.setdefault(cl, []).append((int(ti), int(k)))
for cl, n in c.most_common():
    print(cl, n, first[cl][:6])
    ti, k = first[cl][0]; tr = json.loads(L[ti - 1])
    h = dict(tr["hdr"]); h.pop("env", None); print("    ", json.dumps(tr["ev"][k - 1])[:400]); print("    alg", h.get("alg"), {x: h[x] for x in h if x in ("kind","tt","two","mcts","maxd","heur","prior","dp","coarse","rmv")})
