#!/usr/bin/env python3
"""check.py <property> <quick|thorough>   Decides one property on /repo's current tree.  See DESIGN.md."""
import json, os, random, shutil, sys, tempfile, time, subprocess, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
from concurrent.futures import ThreadPoolExecutor
import build, tlc, registry

def run_shard(exe, args, out, timeout):
    try:
        r = subprocess.run([exe, *args, "--out", out], capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise RuntimeError("harness timed out: %s %s" % (exe, args))
    if r.returncode: raise RuntimeError("harness failed: %s %s rc=%s\n%s" % (exe, args, r.returncode, r.stderr[-2000:]))
    return out

def transient(clause): return any(x in clause for x in ("Hang", "Crash", "crash", "Livelock", "Stuck", "stuck"))   # believed only when seen again

def nth_line(path, n):
    with open(path) as f:
        for k, l in enumerate(f):
            if k == n: return l
    return None

def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t_start = time.time(); deadline = t_start + (480 if tier == "quick" else 6 * 3600)
    reg = registry.PROPS[prop]
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, events_validated=0, models=[], families={}, samples=[])
    violations, notes, pools = [], [], []
    try:
        build.overrides()
        # 1. the specification itself: exhaustive checks of the models this property rests on
        def model(mc):
            cfg, mod, expect = mc["cfg"], mc["module"], mc.get("expect")
            t = time.time()
            rc, out = tlc.run(mod, cfg, workers=mc.get("workers", 4), heap=mc.get("heap", "6g"), timeout=mc.get("timeout", 780), args=mc.get("args", ()), scratch=tmp)
            g, d = tlc.stats(out)
            return mc, rc, out, g, d, time.time() - t
        models = [m for m in reg.get("models", []) if tier == "thorough" or not m.get("thorough_only")]
        mex = ThreadPoolExecutor(2); pools.append(mex)
        mfut = [mex.submit(model, m) for m in models]
        # 2. the implementation: record traces, validate them against the specification
        bex = ThreadPoolExecutor(len(reg["families"])); ex = ThreadPoolExecutor(8); hits_so_far = []; pools += [bex, ex]
        fams = [(f, registry.FAMILIES[f]()) for f in reg["families"]]
        exes = [bex.submit(fam.exe) for _, fam in fams]
        def submit(fam_name, fam, exe):
            info = fam.prepare(tier, seed, tmp) or {}
            fdir = os.path.join(tmp, fam_name); os.makedirs(fdir)
            shards = fam.shards_for(prop, tier, seed) if hasattr(fam, "shards_for") else fam.shards(tier, seed)
            files = [os.path.join(fdir, "t%d.ndjson" % k) for k in range(len(shards))]
            mine, skipped = [], []
            def shard(k):
                # record, then validate; stop early once something is rejected or the time is used up
                if hits_so_far or time.time() > deadline: skipped.append(k); return None
                run_shard(exe, shards[k], files[k], 300 if tier == "quick" else 7200)
                vs, g, d, fin = tlc.validate_one(fam.module, files[k], heap=fam.heap, env=dict(VERIF_PROP=prop),
                                                 timeout=max(60, deadline - time.time()) if tier == "quick" else 7200)
                hit = [v for v in vs if any(c.startswith(prop + ":") for c in v[2])]
                with open(files[k]) as h: lines = sum(1 for _ in h)
                if hit:
                    mine.append((k, hit))
                    if not all(transient(c) for v in hit for c in v[2] if c.startswith(prop + ":")): hits_so_far.append(k)
                else:
                    if not fin: skipped.append(k)
                    if k >= 2: os.unlink(files[k])
                return lines, g, d
            order = list(range(len(shards))); random.Random(seed).shuffle(order)
            order.sort(key=lambda k: 0 if "long" in shards[k] else 1)          # the slowest first
            return fam_name, fam, exe, info, fdir, shards, files, mine, skipped, time.time(), [ex.submit(shard, k) for k in order]
        started = [submit(f, fam, e.result()) for (f, fam), e in zip(fams, exes)]
        for fam_name, fam, exe, info, fdir, shards, files, mine, skipped, t, futures in started:
            rs = [r for r in (f.result() for f in futures) if r]
            n = sum(r[0] for r in rs); g = sum(r[1] for r in rs); d = sum(r[2] for r in rs)
            for f in files[:2]:
                if os.path.exists(f):
                    with open(f) as h: cov["samples"].append(dict(family=fam_name, trace=h.readline()[:1500].rstrip("\n")))
            cov["states"] += d; cov["transitions"] += g; cov["traces_validated_against_impl"] += n
            cov["events_validated"] += max(0, g - n)
            cov["families"][fam_name] = dict(traces=n, events=max(0, g - n), shards=len(shards), shards_not_finished=len(skipped), wall_s=round(time.time() - t, 1), **info)
            if n == 0 and not hits_so_far: raise RuntimeError("no traces recorded by " + fam_name)
            if not hits_so_far and len(skipped) > len(shards) // 2: raise RuntimeError("only %d of %d shards finished in time" % (len(shards) - len(skipped), len(shards)))
            # a rejected trace is recorded and validated again
            for k, hits in mine[:3]:
                f2 = os.path.join(fdir, "confirm.ndjson"); run_shard(exe, shards[k], f2, 300)
                one = os.path.join(fdir, "one.ndjson")
                for ti, ei, cl in hits[:3]:
                    cl = [c for c in cl if c.startswith(prop + ":")]
                    l2, again = nth_line(f2, ti), []
                    if l2 is not None:
                        with open(one, "w") as h: h.write(l2)
                        vs2, _, _, _ = tlc.validate_one(fam.module, one, heap=fam.heap, env=dict(VERIF_PROP=prop), timeout=120)
                        again = [v for v in vs2 if any(c.startswith(prop + ":") for c in v[2])]
                    if not again:
                        notes.append("not reproduced: %s" % cl)
                        if any(transient(c) for c in cl): continue
                        l2, again = nth_line(files[k], ti), [(ti, ei, cl)]
                    vdir = os.path.join(build.OUT, "violations"); os.makedirs(vdir, exist_ok=True)
                    rp = os.path.join(vdir, "%s-%s-%d-%d.json" % (prop, fam_name, k, ti))
                    tr = json.loads(l2); at = again[0][1]
                    with open(rp, "w") as h:
                        json.dump(dict(property=prop, family=fam_name, clauses=sorted(set(c for v in again for c in v[2] if c.startswith(prop + ":"))), harness=[exe, *shards[k]],
                                       trace_index=ti, rejected_event=at, header=tr["hdr"], context=tr["ev"][max(0, at - 12):at + 1],
                                       replay="%s %s --out T; line %d of T; TLC %s with TRACE_FILE and VERIF_PROP" % (exe, " ".join(shards[k]), ti + 1, fam.module),
                                       trace=tr), h)
                    violations.append((rp, [c for c in again[0][2] if c.startswith(prop + ":")], tr["hdr"], tr["ev"][at]))
                    break
                if violations: break
            if violations: break
        for fu in mfut:
            mc, rc, out, g, d, w = fu.result()
            ok_expected = mc.get("expect")
            if ok_expected is None:
                if rc is None: raise tlc.TlcError("model %s timed out" % mc["cfg"])
                if rc != 0: raise tlc.TlcError("model %s: the specification violates its own properties\n%s" % (mc["cfg"], out[-3000:]))
            elif ok_expected not in out: raise tlc.TlcError("model %s: expected '%s'\n%s" % (mc["cfg"], ok_expected, out[-3000:]))
            cov["states"] += d; cov["transitions"] += g
            cov["models"].append(dict(module=mc["module"], cfg=mc["cfg"], states=d, transitions=g, wall_s=round(w, 1), result=ok_expected or "no error"))
        mex.shutdown()
        rc = 0
        for l in registry.known_findings(prop): print("KNOWN-FINDING: property=%s %s" % (prop, l))
        if violations:
            rc = 1
            for rp, cl, hdr, ev in violations:
                print("rejected: %s at event %s of scenario %s" % (",".join(cl), json.dumps(ev)[:300], json.dumps(hdr)[:300]))
                print("VIOLATION property=%s replay=%s" % (prop, rp))
        ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov, wall_s=round(time.time() - t_start, 1),
                  assumptions=reg.get("assumptions", []), violations=[dict(replay=v[0], clauses=v[1]) for v in violations])
        if notes: ev["notes"] = notes
        evd = os.path.join(build.OUT if os.environ.get("VERIF_OUT") else build.VERIF, "evidence")
        os.makedirs(evd, exist_ok=True)
        with open(os.path.join(evd, prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        if rc == 0:
            print("%s held: %d traces (%d events) of the implementation, %d model/trace states, %.0f s" %
                  (prop, cov["traces_validated_against_impl"], cov["events_validated"], cov["states"], time.time() - t_start))
        return rc
    finally:
        for p in pools: p.shutdown(wait=False, cancel_futures=True)
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == "__main__":
    try: sys.exit(main())
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); sys.exit(2)
