"""Which families and models decide which property."""
import os
import build, families
FAMILIES = dict(pool=families.Pool, search=families.Search, pair=families.Pair, comp=families.Comp, det=families.Det, logeval=families.LogEval, evaldet=families.EvalDet, race=families.Race, locks=families.Locks,
                searchx=families.SearchX, poolx=families.PoolX, logevalx=families.LogEvalX)
def M(module, cfg, **kw): return dict(module=module, cfg=cfg, **kw)
POOL = [M("PoolImpl", "PoolImplA.cfg"), M("PoolImpl", "PoolImplB.cfg"), M("PoolImpl", "PoolImplV.cfg"),
        M("PoolImpl", "PoolImplT.cfg", thorough_only=True), M("PoolImpl", "PoolImplTV.cfg", thorough_only=True, timeout=3600), M("PoolImpl", "PoolImplT2.cfg", thorough_only=True, timeout=3600)]
BAD = "Invariant Clean is violated"
SEARCH = [M("SearchModel", "SearchModel_A.cfg"), M("SearchModel", "SearchModel_B.cfg"), M("SearchModel", "SearchModel_S.cfg"),
          M("SearchModel", "SearchModel_C.cfg", thorough_only=True, timeout=3600)]
STALE, LOST, RACY = [[M("SearchModel", "SearchModel_%s.cfg" % v, expect=BAD)] for v in ("stale", "lostmean", "racytable")]
PROPS = {
    "C01": dict(families=["pool", "poolx"], models=POOL + [M("PoolImpl", "PoolImplV%s.cfg" % v, expect="Invariant MonitorOk is violated") for v in ("adds", "clock")]),
    "C02": dict(families=["pool", "poolx"], models=POOL + [M("PoolImpl", "PoolImplL.cfg"), M("PoolImpl", "PoolImplO.cfg", expect="Invariant NotStuck is violated"),
                                                  M("PoolImpl", "PoolImplT3.cfg", thorough_only=True, timeout=3600)]),
    "C03": dict(families=["pool", "poolx"], models=POOL),
    **{c: dict(families=["search"]) for c in "C12 C13 C15 C26 C28".split()},
    **{c: dict(families=["search", "searchx"]) for c in "C14 C16 C17".split()},
    "C04": dict(families=["search", "searchx"], models=SEARCH), "C05": dict(families=["search", "searchx"], models=SEARCH), "C08": dict(families=["search", "searchx"], models=SEARCH + LOST),
    "C09": dict(families=["search", "searchx"], models=SEARCH + RACY + STALE), "C10": dict(families=["search", "searchx"], models=SEARCH), "C11": dict(families=["search", "searchx"], models=SEARCH + LOST),
    "C19": dict(families=["comp", "search"], models=[M("AliasModel", "AliasModel_code.cfg"), M("AliasModel", "AliasModel_T.cfg", thorough_only=True, timeout=3600)] +
                [M("AliasModel", "AliasModel_%s.cfg" % v, expect="Invariant %s is violated" % i) for v, i in (("forget", "InRange"), ("first", "Exact"), ("lazy", "Fresh"))]),
    "C20": dict(families=["comp", "det", "evaldet"]), 
    "C21": dict(families=["logeval", "logevalx"], models=[M("EvalModel", "EvalModel_A.cfg"), M("EvalModel", "EvalModel_B.cfg"), M("EvalModel", "EvalModel_T.cfg", thorough_only=True, timeout=3600)] +
                [M("EvalModel", "EvalModel_%s.cfg" % v, expect=BAD) for v in ("shared", "noreset", "nolock", "length", "offtree")]),
    "C22": dict(families=["logeval", "logevalx"], models=[M("LoggerModel", "LoggerModel_A.cfg"), M("LoggerModel", "LoggerModel_B.cfg"), M("LoggerModel", "LoggerModel_T.cfg", thorough_only=True, timeout=3600)] +
                [M("LoggerModel", "LoggerModel_%s.cfg" % v, expect=BAD) for v in ("unlocked", "else", "nolast", "nomax")]),
    "C24": dict(families=["comp", "search"]),
    "C23": dict(families=["comp", "search", "searchx"]), "C25": dict(families=["comp", "search"]), "C27": dict(families=["comp"]),
    "C06": dict(families=["race"], models=[M("RaceModel", "RaceModel_locked.cfg")] +
                [M("RaceModel", "RaceModel_%s.cfg" % v, expect="Invariant NoRace is violated") for v in ("child", "early", "nojoin")]),
    "C07": dict(families=["locks"], models=[M("TreeLocks", "TreeLocksA.cfg"), M("TreeLocks", "TreeLocksM.cfg", expect="Invariant NoDeadlock is violated"),
                                            M("TreeLocks", "TreeLocksT.cfg", thorough_only=True), M("TreeLocks", "TreeLocksT4.cfg", thorough_only=True, timeout=3600)]),
    "C18": dict(families=["search", "pair"]),
}
def known_findings(prop):
    p = os.path.join(build.VERIF, "known-findings.txt")
    if not os.path.exists(p): return []
    r = []
    for l in open(p):
        l = l.strip()
        if l.startswith("finding: property=%s " % prop): r.append(l.split(" ", 2)[2])
    return r
DEFAULT_NOTE = ("The specification's properties are model checked within the bounds of its configurations; the implementation is bound to it by "
                "validating recorded executions of the real code, event by event, over generated scenarios and schedules (bounded, not a proof of the code).")
NA = {}
