"""What is run for which property: harness programs, shards, trace modules, exhaustive models."""
import json, os, random, re, subprocess
import build, tlc

class Family:
    name = None; module = None; sources = (); build_kw = {}
    heap = "3g"
    def shards(self, tier, seed): raise NotImplementedError      # list of argument lists
    def prepare(self, tier, seed, tmp): pass
    def exe(self): return build.program(self.name, list(self.sources) + ["vsched.cpp", "vtrace.cpp"], **self.build_kw)
class Fine:
    """The same programs with the repository's memory accesses as scheduling points."""
    def exe(self): return build.program(self.name, list(self.sources) + ["vsched.cpp", "vtrace.cpp"], repo_flags=("-O1", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"), plain=["vfine.cpp"], isolate=True)

def spread(total, per, seed, extra=()):
    """Random cases 0..total-1 in shards of `per`."""
    return [["--mode", "random", "--seed", str(seed), "--from", str(a), "--count", str(min(per, total - a)), *extra]
            for a in range(0, total, per)]

class Pool(Family):
    name = "pool"; module = "TracePool"; sources = ("pool.cpp",)
    def prepare(self, tier, seed, tmp):
        # behaviours generated by TLC from PoolImpl, turned into programs and schedules
        n = 150 if tier == "quick" else 3000
        rc, out = tlc.run("PoolImpl", "PoolImplGen.cfg", args=["-simulate", "num=%d" % n, "-depth", "150", "-seed", str(seed)], timeout=300)
        hs = []
        for x in re.findall(r'^"@@GEN (.*)"$', out, re.M): hs.append(json.loads(x.replace('\\"', '"')))
        if not hs: raise tlc.TlcError("no behaviours generated: " + out[-2000:])
        self.generated = len(hs)
        rnd = random.Random(seed); lines = []
        for h in hs:
            ops, script, joiners = [], [], 0
            for st in h:
                k = st[0]
                if k == "Run": ops.append("Run %d %d %d" % (st[1], -1 if st[2] >= 1000000 else st[2], 1 if st[3] else 0)); script.append(0)
                elif k in ("Join", "Set"): ops.append(k + " 0 0 0"); script.append(0)
                elif k == "Joiner":
                    ops.append("Joiner 0 0 0"); joiners += 1; script.append(0); script.append(3 + joiners)
                elif k == "m": script.append(0)
                elif k == "j": script.append(3 + max(1, joiners))
                elif k == "w": script.append(st[1])
                elif k == "tick": script.append(-1)
                if k == "Run" and joiners: ops.insert(len(ops) - 1, "Drain 0 0 0")
            dur = " ".join(str(rnd.choice([0, 0, 0, 1])) for _ in range(2))
            lines.append("3 %d %d 1|%s|%s|%s" % (rnd.choice([0, 1]), rnd.choice([0, 1]), dur, ";".join(ops), " ".join(map(str, script))))
        self.progs = os.path.join(tmp, "pool.progs")
        with open(self.progs, "w") as f: f.write("\n".join(lines) + "\n")
        return dict(behaviours_generated_by_tlc=len(hs))
    def shards(self, tier, seed):
        q = tier == "quick"
        s = spread(4800 if q else 160000, 600 if q else 4000, seed)
        for k in range(4): s.append(["--mode", "script", "--seed", str(seed), "--progs", self.progs, "--from", str(k), "--count", "4"])
        for k in range(16): s.append(["--mode", "dfs", "--from", str(k), "--bound", "2" if q else "3", "--limit", "1200" if q else "30000"])
        return s

class PoolX(Fine, Pool):
    name = "poolx"
    def prepare(self, tier, seed, tmp): pass
    def shards(self, tier, seed):
        return [x + ["--access", "1"] for x in spread(1200 if tier == "quick" else 40000, 150 if tier == "quick" else 2000, seed + 5000)]

def cut(kind, total, per, seed, algs=None, force=None):
    extra = ["--kind", kind] + (["--algs", algs] if algs else []) + (["--force", force] if force else [])
    return [[*extra, "--seed", str(seed), "--from", str(a), "--count", str(min(per, total - a))] for a in range(0, total, per)]

class Search(Family):
    """The real search, all algorithms, under controlled schedules."""
    name = "search"; module = "TraceSearch"; sources = ("search.cpp",)
    ALGS = {"C11": "0,1", "C12": "0,1", "C14": "2,3,4,5", "C15": "2,3,4,5,6,7", "C16": "5,6,7", "C17": "6", "C25": "2,3,4,5,6,7"}
    #        search fine long freq
    MIX = {"C04": (1200, 500, 16, 0), "C05": (1200, 500, 16, 0), "C08": (900, 900, 16, 0), "C09": (1000, 800, 0, 0), "C10": (1200, 500, 0, 100),
           "C11": (1200, 400, 24, 0), "C12": (1200, 0, 24, 600), "C13": (1200, 0, 32, 800), "C14": (1400, 0, 16, 0), "C15": (1200, 0, 16, 700),
           "C16": (1400, 200, 16, 0), "C17": (1200, 200, 16, 0), "C18": (800, 0, 0, 0), "C19": (0, 0, 0, 300), "C23": (800, 800, 0, 0),
           "C24": (300, 0, 0, 0), "C25": (1200, 0, 16, 0), "C26": (1400, 0, 0, 0), "C28": (1400, 300, 0, 0)}
    def shards_for(self, prop, tier, seed):
        m = 1 if tier == "quick" else 12
        a, b, c, d = [x * m for x in self.MIX[prop]]
        algs = self.ALGS.get(prop)
        s = cut("search", a // 2, 75, seed, algs, "drop" if prop == "C28" else None) + cut("fine", b // 2, 75, seed, algs, "drop" if prop == "C28" else None)
        forced = {"C09": "tt,multi", "C18": "two", "C08": "multi", "C23": "multi", "C28": "drop,tt"}.get(prop, "tt")
        s += cut("search", a - a // 2, 75, seed + 1000, algs, forced) + cut("fine", b - b // 2, 75, seed + 1000, algs, "tt,multi")
        s += cut("long", c, 2, seed, algs) + cut("freq", d, 75, seed, algs)
        return s
class SearchX(Fine, Search):
    name = "searchx"
    #        search fine
    MIXX = {"C04": (200, 100), "C05": (200, 100), "C08": (300, 300), "C09": (200, 300), "C10": (200, 200), "C11": (300, 100), "C14": (300, 0),
            "C16": (300, 100), "C17": (200, 100), "C23": (200, 100)}
    def shards_for(self, prop, tier, seed):
        m = 1 if tier == "quick" else 12
        a, b = [x * m for x in self.MIXX[prop]]; algs = self.ALGS.get(prop); s = []
        for kind, n in (("search", a), ("fine", b)):
            s += cut(kind, n // 2, 50, seed + 2000, algs, "multi") + cut(kind, n - n // 2, 50, seed + 3000, algs, "tt,multi")
        return [x + ["--access", "1"] for x in s]
class Pair(Family):
    """Two runs with the same random choices: a game and its negation."""
    name = "search"; module = "TracePair"; sources = ("search.cpp",)
    def shards(self, tier, seed): return cut("pair", 1600 if tier == "quick" else 24000, 100, seed)
class Det(Family):
    """Two runs of the same seeded single-threaded search."""
    name = "search"; module = "TraceDet"; sources = ("search.cpp",)
    def shards(self, tier, seed): return cut("det", 800 if tier == "quick" else 16000, 100, seed)
class Comp(Family):
    """The parts without threads, driven directly."""
    name = "comp"; module = "TraceComp"; sources = ("comp.cpp",)
    def shards_for(self, prop, tier, seed):
        q = tier == "quick"
        if prop == "C19": return cut("sample", 1600 if q else 60000, 200 if q else 1000, seed)
        if prop == "C20": return cut("rng", 320 if q else 20000, 40 if q else 500, seed)
        if prop == "C23":
            d = 3 if q else 4; n = 12 ** d; k = (n + 7) // 8 if q else 1728
            return cut("ctx", 1200 if q else 40000, 150 if q else 1000, seed) + \
                   [["--kind", "ctxall", "--depth", str(d), "--from", str(a), "--count", str(min(k, n - a))] for a in range(0, n, k)]
        if prop == "C24": return cut("types", 600 if q else 20000, 75 if q else 400, seed)
        if prop == "C25": return cut("decay", 400 if q else 12000, 50 if q else 400, seed)
        if prop == "C27": return cut("obs", 400 if q else 12000, 50 if q else 400, seed)
class LogEval(Family):
    """The search log and Monte-Carlo evaluation."""
    name = "logeval"; module = "TraceLogEval"; sources = ("logeval.cpp",)
    def shards_for(self, prop, tier, seed):
        q = tier == "quick"
        if prop == "C22": return cut("log", 2400 if q else 60000, 200 if q else 1000, seed)
        return cut("eval", 2000 if q else 60000, 200 if q else 1000, seed) + cut("evalfreq", 32 if q else 640, 4, seed)
class LogEvalX(Fine, LogEval):
    name = "logevalx"
    def shards_for(self, prop, tier, seed):
        q = tier == "quick"
        return [x + ["--access", "1"] for x in cut("log" if prop == "C22" else "eval", 600 if q else 12000, 75 if q else 500, seed + 5000)]
class EvalDet(Family):
    """Two evaluations with the same seed."""
    name = "logeval"; module = "TraceDet"; sources = ("logeval.cpp",)
    def shards(self, tier, seed): return cut("evaldet", 400 if tier == "quick" else 8000, 100, seed)
class Race(Family):
    """Every memory access of multi-threaded search, logging and evaluation (compiler instrumentation)."""
    name = "race"; module = "TraceRace"; heap = "4g"
    def exe(self): return build.program("race", ["race.cpp"], flags=("-O1", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"),
                                        plain=["vsched.cpp", "vtrace.cpp", "vrace.cpp", "varena.cpp"])
    def shards(self, tier, seed):
        n, per = (640, 20) if tier == "quick" else (16000, 100)
        return [["--seed", str(seed), "--from", str(a), "--count", str(per)] for a in range(0, n, per)]
class Locks(Family):
    """Every lock operation of multi-threaded search, logging and evaluation."""
    name = "locks"; module = "TraceLocks"; sources = ("locks.cpp", "varena.cpp")
    def shards(self, tier, seed):
        n, per = (2400, 150) if tier == "quick" else (48000, 500)
        return [["--seed", str(seed), "--from", str(a), "--count", str(per)] for a in range(0, n, per)]
