#!/usr/bin/env python3
"""sweep.py WORKER OF [SEED]   Mechanical mutation of the repository's sources (development aid).  Each mutant that compiles and passes the
stable tests is recorded and validated against all clauses of the specification at once (small samples of every family); survivors are printed."""
import os, re, sys, json, random, subprocess, shutil, time, tempfile
from concurrent.futures import ThreadPoolExecutor
W, OF = int(sys.argv[1]), int(sys.argv[2]); SEED = int(sys.argv[3]) if len(sys.argv) > 3 else 1
D = "/tmp/sweep-%d" % W; OUT = D + "-out"
os.environ["VERIF_REPO"] = D; os.environ["VERIF_OUT"] = OUT
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib")); import build, tlc, registry
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
FILES = sh("git -C /repo ls-files src include").stdout.split()
FILES = [f for f in FILES if f.endswith((".cpp", ".cc", ".h")) and "template" not in f.split("/")[-1].replace("helper_templates", "") and "main" not in f]
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "),
       (r"\+\+", "--"), (r" \+= ", " -= "), (r" \+= ", " = "), (r" -= ", " += "), (r" \*= ", " /= "), (r" && ", " || "), (r" \|\| ", " && "), (r"\b0\.0\b", "1.0"), (r"\b1\.0\b", "2.0"), (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "2"),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"if \((.*)\) ", r"if (!(\1)) "), (r"\bmax\(", "min("), (r"\bmin\(", "max("), (r"\bbreak;", ""), (r"\bcontinue;", ""), (r"return (.*is_[a-z_]+\(\)[^;]*);", r"return !(\1);")]
def mutants():
    r = []
    for f in FILES:
        comment = False
        for n, l in enumerate(open("/repo/" + f).read().split("\n")):
            s = l.strip()
            if s.startswith("/*"): comment = True
            if comment:
                if "*/" in s: comment = False
                continue
            if not s or s.startswith(("//", "*", "#", "using", "template", "friend", "namespace", "class", "virtual", "public", "throw", "typedef")): continue
            code = l.split("//")[0]
            for a, b in OPS:
                for m in re.finditer(a, code):
                    if a in (r" < ", r" > ") and "template" in code: continue
                    r.append((f, n, code[:m.start()] + m.expand(b) + code[m.end():]))
            if f.endswith((".cpp", ".cc")) and re.match(r"^[A-Za-z_][\w.\->:()*\[\]]*(\+\+|--| [-+*/]?= |\(.*\)).*;$", s) and not s.startswith(("return", "throw", "delete")) and not re.match(r"^\w[\w:<>,*& ]* \w+( =|\()", s): r.append((f, n, ""))
            if f.endswith((".cpp", ".cc")) and s.endswith(";") and s.startswith(("lock_guard", "unique_lock")): r.append((f, n, ""))
    return r
F = lambda n: registry.FAMILIES[n]()
SEARCH = [["--kind", "search", "--seed", str(k), "--from", "0", "--count", "60"] for k in (1, 2, 3)] + [["--kind", "search", "--force", "tt", "--seed", "4", "--from", "0", "--count", "60"], ["--kind", "search", "--force", "drop,tt", "--seed", "5", "--from", "0", "--count", "60"],
          ["--kind", "fine", "--force", "tt,multi", "--seed", "6", "--from", "0", "--count", "60"], ["--kind", "freq", "--seed", "7", "--from", "0", "--count", "50"], ["--kind", "freq", "--seed", "8", "--from", "0", "--count", "50"], ["--kind", "long", "--seed", "9", "--from", "0", "--count", "4"]]
C = lambda k, n: ["--kind", k, "--seed", "1", "--from", "0", "--count", str(n)]
PLAN = [("search", SEARCH), ("comp", [C("sample", 400), C("rng", 40), C("ctx", 100), C("types", 200), C("decay", 100), C("obs", 100)]), ("logeval", [C("eval", 250), C("log", 400), C("evalfreq", 4)]),
        ("det", [C("det", 100)]), ("pair", [C("pair", 150)]), ("evaldet", [C("evaldet", 60)]),
        ("pool", [["--mode", "random", "--seed", "1", "--from", "0", "--count", "600"]]), ("locks", [["--seed", "1", "--from", "0", "--count", "200"]]), ("race", [["--seed", "1", "--from", str(a), "--count", "20"] for a in (0, 20, 40, 60)]),
        ("searchx", [["--kind", "search", "--force", "tt,multi", "--seed", "2", "--from", "0", "--count", "50", "--access", "1"], ["--kind", "fine", "--force", "multi", "--seed", "2", "--from", "0", "--count", "50", "--access", "1"]]),
        ("search", [x[:-1] + ["200"] for x in [y[:y.index("--seed")] + ["--seed", "3%d" % i] + y[y.index("--from"):] for i, y in enumerate(SEARCH[:8])]])]
def judge():
    for name, shards in PLAN:
        fam = F(name); exe = fam.exe(); tmp = tempfile.mkdtemp(prefix="sweep")
        try:
            def one(k):
                o = os.path.join(tmp, "%d" % k)
                try: r = subprocess.run([exe, *shards[k], "--out", o], capture_output=True, text=True, timeout=200)
                except subprocess.TimeoutExpired: return ["HARNESS-TIMEOUT"]
                if r.returncode: return ["HARNESS-RC%d" % r.returncode]
                vs, _, _, _ = tlc.validate_one(fam.module, o, heap=fam.heap, env=dict(VERIF_PROP="ALL"), timeout=300)
                return sorted({c for v in vs for c in v[2]})[:6]
            with ThreadPoolExecutor(4) as ex: rs = list(ex.map(one, range(len(shards))))
            bad = sorted({c for r in rs for c in r})
            if bad: return name, bad
        finally: shutil.rmtree(tmp, ignore_errors=True)
    return None, []
def main():
    shutil.rmtree(D, ignore_errors=True); sh("cp -a /repo " + D)
    for f in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + f).read().replace("/opt/vp/build.sh", D + "/bin/vp/build.sh").replace("/repo", D)
        open(D + "/bin/vp/" + f, "w").write(t)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    ms = mutants(); random.Random(SEED).shuffle(ms); print("mutants", len(ms), flush=True)
    for k, (f, n, new) in enumerate(ms):
        if k % OF != W: continue
        p = os.path.join(D, f); L = open("/repo/" + f).read().split("\n"); old = L[n]; L[n] = new
        tag = "%d %s:%d  %s  =>  %s" % (k, f, n + 1, old.strip()[:110], new.strip()[:110])
        open(p, "w").write("\n".join(L)); t = time.time()
        try:
            b = sh("timeout 300 bash bin/vp/build.sh", cwd=D)
            if b.returncode: print("nobuild ", tag, flush=True); continue
            try: sh("timeout 60 bash bin/vp/test.sh /tmp/sweep-%d.json" % W, cwd=D, timeout=120); o = json.load(open("/tmp/sweep-%d.json" % W))
            except Exception: o = dict(passed=[])
            if stable - set(o["passed"]): print("tests   ", tag, flush=True); continue
            try: fam, bad = judge()
            except Exception as e: fam, bad = "ERROR", [repr(e)[-300:]]
            print("%s %s  [%.0fs] %s %s" % ("killed  " if bad and fam != "ERROR" else "ERROR   " if bad else "SURVIVED", tag, time.time() - t, fam, bad[:5]), flush=True)
        finally:
            shutil.copy("/repo/" + f, p)
main()
