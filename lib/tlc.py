"""Running TLC: trace validation in parallel shards, exhaustive checks, simulation."""
import os, re, subprocess, tempfile, shutil, time, json
from concurrent.futures import ThreadPoolExecutor
import build
CP = lambda: ":".join([build.TLA + "/tla2tools.jar", build.TLA + "/CommunityModules-deps.jar", build.overrides()])
SPECS = os.path.join(build.VERIF, "specs")
class TlcError(Exception): pass

def run(module, cfg=None, env=None, workers=1, heap="2g", args=(), timeout=800, scratch=None):
    d = tempfile.mkdtemp(prefix="tlc", dir=scratch)
    try:
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + d, "-cp", CP(), "tlc2.TLC",
               "-metadir", d, "-workers", str(workers), "-noGenerateSpecTE", "-config", cfg or module + ".cfg", *args, module + ".tla"]
        e = dict(os.environ); e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=SPECS, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as x:
            return None, (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
        return r.returncode, r.stdout + r.stderr
    finally:
        shutil.rmtree(d, ignore_errors=True)

def stats(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m: return 0, 0
    return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))

BAD = re.compile(r'^"?@@BAD (\d+) (\d+) (.*?)"?$', re.M)
def validate_one(module, f, cfg=None, heap="3g", timeout=800, env=None):
    """Validates one file of traces.  Returns (violations, generated, distinct, finished): violations are
    (trace index from 0, event index from 0, [clauses])."""
    if os.path.getsize(f) == 0: return [], 0, 0, True
    rc, out = run(module, cfg, dict(env or {}, TRACE_FILE=f), 1, heap, timeout=timeout)
    if rc not in (0, None): raise TlcError("TLC %s on %s: rc=%s\n%s" % (module, f, rc, out[-3000:]))
    g, d = stats(out)
    vs = [(int(t) - 1, int(k) - 1, re.findall(r'\\?"([^"\\]+)\\?"', b)) for t, k, b in BAD.findall(out)]
    if "@@BAD" in out and not vs: raise TlcError("unparsable report: " + out[-2000:])
    return vs, g, d, rc == 0
def validate(module, files, cfg=None, heap="3g", par=8, timeout=800, env=None):
    with ThreadPoolExecutor(par) as ex: rs = list(ex.map(lambda f: validate_one(module, f, cfg, heap, timeout, env), files))
    return [(f,) + v for f, r in zip(files, rs) for v in r[0]], sum(r[1] for r in rs), sum(r[2] for r in rs)
