"""Builds /repo's sources and the harnesses into /verif/build (content-addressed, so nothing stale is ever used)."""
import glob, hashlib, itertools, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT") or os.path.join(VERIF, "build")
TLA = "/opt/veriftools/tla"
BASE = ["-std=c++20", "-g1", "-I%s/include" % REPO, "-I%s/src" % REPO, "-I%s" % REPO, "-w"]

class BuildError(Exception): pass
_serial = itertools.count()
def _tmp(p): return "%s.%d.%d.tmp" % (p, os.getpid(), next(_serial))

def _read(p):
    with open(p, "rb") as f: return f.read()
def _hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str): p = p.encode()
        h.update(len(p).to_bytes(8, "big")); h.update(p)
    return h.hexdigest()[:24]

def _headers(extra=()):
    fs = []
    for d in ("include", "src"):
        for r, _, names in os.walk(os.path.join(REPO, d)):
            fs += [os.path.join(r, n) for n in names if not n.endswith((".cpp", ".md", ".o"))]
    fs += glob.glob(os.path.join(VERIF, "harness", "*.h"))
    return _hash(*[x for f in sorted(fs) for x in (f, _read(f))])

def _compile(src, flags, hh, cxx="g++"):
    key = _hash(_read(src), src, hh, cxx, *flags)
    o = os.path.join(OUT, "obj", key + ".o")
    if not os.path.exists(o):
        os.makedirs(os.path.dirname(o), exist_ok=True)
        tmp = _tmp(o)
        r = subprocess.run([cxx, *flags, "-c", src, "-o", tmp], capture_output=True, text=True)
        if r.returncode: raise BuildError("compile %s failed:\n%s" % (src, r.stderr[-4000:]))
        os.rename(tmp, o)
    return o

def repo_sources():
    return sorted(f for f in glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True)
                  if not os.path.basename(f).startswith("main"))

def _isolated(objs):
    """One object of the given ones that keeps its own copies of the standard library's templates (not the instrumented ones)."""
    o = os.path.join(OUT, "obj", _hash("isolated-weak", *objs) + ".o")
    if not os.path.exists(o):
        tmp = _tmp(o)
        def do(*c):
            r = subprocess.run(c, capture_output=True, text=True)
            if r.returncode: raise BuildError("%s failed:\n%s" % (c[0], r.stderr[-4000:]))
            return r.stdout
        do("ld", "-r", "--force-group-allocation", *objs, "-o", tmp)
        weak = [l.split()[-1] for l in do("nm", "--defined-only", tmp).split("\n") if len(l.split()) == 3 and l.split()[1] in "WVu"]
        with open(tmp + ".sym", "w") as f: f.write("\n".join(s for s in weak if s.startswith(("_ZNSt", "_ZNKSt", "_ZSt", "_ZZNSt", "_ZN9__gnu_cxx", "_ZNK9__gnu_cxx"))))
        do("objcopy", "--localize-symbols=" + tmp + ".sym", tmp); os.unlink(tmp + ".sym")
        os.rename(tmp, o)
    return o

def program(name, sources, flags=("-O1",), repo_flags=None, link=(), no_access=True, repo=True, plain=(), isolate=False):
    """Links harness sources with every repository source; returns the path of the executable."""
    hh = _headers()
    rf = list(BASE) + list(repo_flags if repo_flags is not None else flags)
    hf = list(BASE) + ["-I%s/harness" % VERIF] + list(flags) + (["-fno-access-control"] if no_access else []) + (["-fno-gnu-unique"] if isolate else [])
    jobs = [(s, rf) for s in (repo_sources() if repo else [])] + [(os.path.join(VERIF, "harness", s), hf) for s in sources]
    jobs += [(os.path.join(VERIF, "harness", s), list(BASE) + ["-I%s/harness" % VERIF, "-O1"] + (["-fno-gnu-unique"] if isolate else [])) for s in plain]     # never instrumented
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: _compile(j[0], j[1], hh), jobs))
    if isolate: objs = objs[:-len(sources) - len(plain)] + [_isolated(objs[-len(sources) - len(plain):])]
    key = _hash(name, *objs, *link)
    exe = os.path.join(OUT, "bin", "%s-%s" % (name, key))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        for old in glob.glob(os.path.join(OUT, "bin", name + "-*")):
            try: os.unlink(old)
            except OSError: pass
        tmp = _tmp(exe)
        r = subprocess.run(["g++", *objs, "-o", tmp, "-rdynamic", "-ldl", "-lpthread", *link], capture_output=True, text=True)
        if r.returncode: raise BuildError("link %s failed:\n%s" % (name, r.stderr[-4000:]))
        os.rename(tmp, exe)
    return exe

def overrides():
    d = os.path.join(OUT, "overrides")
    src = sorted(glob.glob(os.path.join(VERIF, "overrides", "*.java")))
    key = _hash(*[_read(s) for s in src])
    stamp = os.path.join(d, key)
    if not os.path.exists(stamp):
        os.makedirs(d, exist_ok=True)
        r = subprocess.run(["javac", "-cp", TLA + "/tla2tools.jar", "-d", d, *src], capture_output=True, text=True)
        if r.returncode: raise BuildError("javac: " + r.stderr)
        open(stamp, "w").close()
    return d

def prune():
    """Keeps the object cache from growing without bound."""
    fs = sorted(glob.glob(os.path.join(OUT, "obj", "*.o")), key=os.path.getmtime)
    for f in fs[:-600]:
        try: os.unlink(f)
        except OSError: pass
