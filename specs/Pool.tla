-------------------------------- MODULE Pool --------------------------------
(* The search pool as its user sees it: requests, trials, returns.           *)
(*                                                                           *)
(* The state is a record; Bad(s, e) is the set of violated clauses when the  *)
(* observable event e happens in state s (empty = the step is allowed), and  *)
(* Upd(s, e) is the state after it.  The same two operators are              *)
(*   - the monitor of PoolImpl (every schedule of the lock-level model), and *)
(*   - the transition relation of TracePool (traces of the real pool).       *)
(* Clause names start with the property they belong to.                      *)
(* Time is counted in ticks; Inf stands for "no limit".                      *)
EXTENDS Integers, FiniteSets, Sequences

Inf == 1000000
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* A request may be made while an earlier one is still running; it replaces what is left of that one.  Trials the
\* workers had already picked up for the earlier request may show up after the new one (at most `extra` of them,
\* and once the new request has been accepted at most one per worker that is not in `fresh`).
Init0(jitter, prefer, nw, depth) ==
  [ phase  |-> "none",     \* none, live, deleting, dead
    prob   |-> 0,          \* the problem later trials must work on
    N      |-> 0, lim |-> 0, t0lo |-> 0, t0hi |-> 0,
    open   |-> FALSE,      \* the current request has not been seen to end
    started|-> 0,          \* trials started since the current request
    extra  |-> 0, fresh |-> {}, acc |-> FALSE, nw |-> nw, depth |-> depth,
    idle   |-> TRUE,       \* the user knows that nothing is running
    infl   |-> {},         \* <<worker, trial, problem>> in progress
    free   |-> {},         \* <<worker, time of its last trial end>>
    calls  |-> {},         \* <<kind, id>> of pending user calls
    mcts   |-> FALSE, newMcts |-> FALSE, ran |-> 0,   \* tree-expansion mode of the problem, of the one being set, trials started on it
    wlIdle |-> TRUE,
    setIdle|-> TRUE,       \* idle when the pending re-targeting was requested
    delInfl|-> {}, delStarted |-> {},
    jitter |-> jitter,     \* reading the clock may itself advance it
    prefer |-> prefer ]    \* destruction was scheduled with priority

InflW(s)     == { x[1] : x \in s.infl }
LastFree(s,w)== LET T == { x[2] : x \in { y \in s.free : y[1] = w } } IN IF T = {} THEN -1 ELSE CHOOSE t \in T : \A u \in T : u <= t
Expired(s,tm)== s.lim < Inf /\ tm >= s.t0lo + s.lim
Over(s, tm)  == s.started >= s.N \/ Expired(s, tm)

C(c, name) == IF c THEN {} ELSE {name}

\* --- start of a trial by worker e.w on problem e.p; e.fa bounds the time it was picked up from below
TSBad(s, e) ==
  LET lb == Max2(Max2(LastFree(s, e.w), s.t0lo), e.fa) IN
       C(s.phase \in {"live", "deleting"},                 "C03:trial-after-destruction")
  \cup C(s.open,                                           "C01:trial-without-request")
  \cup C(s.open \/ s.calls # {},                           "C03:trial-after-join")
  \cup C(s.open => s.started < Max2(s.N, 0) + s.extra,                        "C01:more-trials-than-requested")
  \cup C((s.open /\ s.lim < Inf /\ (s.extra = 0 \/ e.w \in s.fresh)) => (s.lim > 0 /\ lb < s.t0hi + s.lim), "C01:trial-picked-up-after-time-limit")
  \cup C(e.p = s.prob,                                     "C03:trial-on-wrong-problem")
  \cup C(e.w \notin InflW(s),                              "C03:worker-runs-two-trials")
  \cup C((s.phase = "deleting" /\ s.prefer) => (e.w \notin s.delInfl /\ e.w \notin s.delStarted), "C03:destruction-starts-trials")

ReturnBad(s, e) ==
       C(s.infl = {},                                      "C03:returned-with-trial-in-progress")
  \cup C(s.open => Over(s, e.tm),                          "C01:returned-before-budget-or-limit")
SetBad(s, e) ==
  IF e.ok
  THEN C(s.infl = {},                                      "C03:retargeted-with-trial-in-progress")
       \cup C(s.open => Over(s, e.tm),                     "C03:retargeted-with-trials-left")
  ELSE C(~s.setIdle,                                        "C03:idle-pool-refused-new-problem")
StuckBad(s) ==
  {"C02:stuck"}
  \cup (IF s.open /\ s.started < s.N /\ s.lim = Inf /\ s.phase = "live" THEN {"C01:stuck-with-trials-left"} ELSE {})
  \cup (IF \E c \in s.calls : c[1] = "run" THEN {"C03:non-blocking-run-waits"} ELSE {})

Bad(s, e) ==
  CASE e.e = "TS"    -> TSBad(s, e)
    [] e.e = "TE"    -> C(<<e.w, e.t, e.p>> \in s.infl,    "C03:foreign-trial-end")
                        \cup C(e.k = -1 \/ IF s.mcts THEN e.k <= Min2(s.depth, s.ran) ELSE e.k = s.depth, "C03:trial-with-other-settings")
    [] e.e = "Log"   -> C(e.p = s.prob /\ e.root,           "C03:log-of-wrong-problem")
                        \cup C(s.phase \in {"live", "deleting"}, "C03:log-after-destruction")
    [] e.e = "Act"   -> C(\E x \in s.infl : x[1] = e.w /\ x[3] = e.p, "C03:work-outside-own-trial")
    [] e.e = "RunR"  -> IF e.bl THEN ReturnBad(s, e) ELSE {}
    [] e.e = "JoinR" -> ReturnBad(s, e)
    [] e.e = "SetR"  -> SetBad(s, e)
    [] e.e = "AwaitR"-> {}
    [] e.e = "WL"    -> C(s.wlIdle => ~e.v,                  "C03:idle-pool-claims-work")
    [] e.e = "DelR"  -> C(s.infl = {},                     "C03:destroyed-with-trial-in-progress")
    [] e.e = "End"   -> C(s.phase = "dead" /\ s.infl = {}, "C03:work-after-destruction")
    [] e.e \in {"Stuck", "Livelock", "Hang", "BadUnlock"} -> StuckBad(s)
    [] e.e = "Crash" -> {"C01:crash", "C02:crash", "C03:crash"}
    [] OTHER         -> {}

Done(s) == [s EXCEPT !.open = FALSE, !.idle = TRUE]
Upd(s, e) ==
  CASE e.e = "NewR"  -> [s EXCEPT !.phase = "live"]
    [] e.e = "NewC"  -> [s EXCEPT !.prob = e.p, !.mcts = e.mcts]
    [] e.e = "WLC"   -> [s EXCEPT !.wlIdle = s.idle]
    [] e.e = "RunC"  -> [s EXCEPT !.N = e.N, !.lim = e.lim, !.t0lo = e.tm,
                                  !.t0hi = IF s.jitter \/ s.open THEN Inf ELSE e.tm,
                                  !.open = TRUE, !.idle = FALSE, !.started = 0, !.fresh = {}, !.acc = FALSE,
                                  !.extra = IF s.open THEN Max2(0, Max2(s.N, 0) + s.extra - s.started) ELSE 0,
                                  !.calls = @ \cup {<<IF e.bl THEN "brun" ELSE "run", e.c>>}]
    [] e.e = "RunR"  -> LET s1 == [s EXCEPT !.t0hi = Min2(@, e.tm), !.acc = TRUE,
                                            !.extra = Min2(@, s.started + s.nw - Cardinality(InflW(s))),
                                            !.calls = {x \in @ : x[2] # e.c}] IN IF e.bl THEN Done(s1) ELSE s1
    [] e.e = "JoinC" -> [s EXCEPT !.calls = @ \cup {<<"join", e.c>>}]
    [] e.e = "JoinR" -> Done([s EXCEPT !.calls = {x \in @ : x[2] # e.c}])
    [] e.e = "SetC"  -> [s EXCEPT !.setIdle = s.idle, !.newMcts = e.mcts]
    [] e.e = "SetR"  -> IF e.ok THEN [s EXCEPT !.prob = e.p, !.open = FALSE, !.mcts = s.newMcts, !.ran = 0] ELSE s
    [] e.e = "TS"    -> [s EXCEPT !.infl = @ \cup {<<e.w, e.t, e.p>>}, !.started = @ + 1, !.ran = Min2(@ + 1, s.depth),
                                  !.t0hi = IF s.extra = 0 THEN Min2(@, e.tm) ELSE @,
                                  !.delStarted = IF s.phase = "deleting" THEN @ \cup {e.w} ELSE @]
    [] e.e = "TE"    -> [s EXCEPT !.infl = {x \in @ : x[1] # e.w},
                                  !.fresh = IF s.acc THEN @ \cup {e.w} ELSE @,
                                  !.free = {x \in @ : x[1] # e.w} \cup {<<e.w, e.tm>>}]
    [] e.e = "DelC"  -> [s EXCEPT !.phase = "deleting", !.delInfl = InflW(s)]
    [] e.e = "DelR"  -> [s EXCEPT !.phase = "dead"]
    [] OTHER         -> s
=============================================================================
