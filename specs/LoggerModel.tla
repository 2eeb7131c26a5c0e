----------------------------- MODULE LoggerModel ----------------------------
(* ThtsPool::try_log, run_trials and ThtsLogger at the grain of their        *)
(* critical sections, over every interleaving of workers and clock ticks and *)
(* several runs of one logger.  Every step is observed by the monitor of     *)
(* module Logger: `bad` collects the clauses it violates.  Variants other    *)
(* than "code" are mistakes the model must expose:                           *)
(*   unlocked  completions are counted without the logging lock              *)
(*   reread    the counter is written back outside the lock                  *)
(*   else      the time threshold does not move when the trial count is due  *)
(*   nomax     the run time of a run ends at its last completed trial        *)
(*   nolast    the end of the previous run is not reset when a run starts    *)
EXTENDS Logger
CONSTANTS W, Trials, Runs, Delta, Dt, MaxT, Variant
VARIABLES now, lg, ents, nv, nb, left, runs, own, wk, s, bad
vars == <<now, lg, ents, nv, nb, left, runs, own, wk, s, bad>>
RECURSIVE Feed(_, _, _)
Feed(m, b, es) == IF es = <<>> THEN <<m, b>> ELSE Feed(LoggerUpd(m, Head(es)), b \cup LoggerBad([p |-> [lk |-> 1]], m, Head(es)), Tail(es))
Emit(es) == LET r == Feed(s, bad, es) IN s' = r[1] /\ bad' = r[2]
Quiet == UNCHANGED <<s, bad>>
Val == DInt(nb)                                       \* any function of the root will do
En(tk, v, b, x) == <<tk, Zero, v, b, x, Zero, 1>>
Init == /\ now = 0 /\ ents = 0 /\ nv = 0 /\ nb = 0 /\ left = 0 /\ runs = 0 /\ own = 0
        /\ lg = [completed |-> 0, lastLog |-> 0, thr |-> IF Dt > 0 THEN Dt ELSE Never, prior |-> 0, start |-> 0, last |-> 0, stamp |-> 0]
        /\ wk = [k \in 1..W |-> [pc |-> "idle", log |-> FALSE, tmp |-> 0]]
        /\ LET r == Feed(LInit, {}, <<[e |-> "NEWL", delta |-> Delta, dt |-> Dt], [e |-> "ROOT", n |-> 1, nv |-> 0, nb |-> 0, leaf |-> FALSE],
                                      [e |-> "USE", l |-> 1, n |-> 1, seen |-> TRUE, w |-> W]>>) IN s = r[1] /\ bad = r[2]
Idle == \A k \in 1..W : wk[k].pc = "idle"
Run == /\ runs < Runs /\ left = 0 /\ Idle /\ ~s.running
       /\ runs' = runs + 1 /\ left' \in {0, Trials}          \* a run may end without a trial
       /\ lg' = [lg EXCEPT !.prior = LET p == @ + lg.last - lg.start IN IF Variant # "nomax" /\ lg.stamp > p THEN lg.stamp ELSE p, !.start = now, !.last = IF Variant = "nolast" THEN @ ELSE now]
       /\ ents' = IF ents = 0 THEN 1 ELSE ents
       /\ Emit(<<[e |-> "RUN"], [e |-> "LK", t |-> 0, tm |-> now]>> \o (IF ents = 0 THEN <<[e |-> "ORG", l |-> 1, size |-> 1, en |-> En(0, 0, 0, Zero)]>> ELSE <<>>)
               \o <<[e |-> "LR", t |-> 0, tm |-> now]>>)
       /\ UNCHANGED <<now, nv, nb, own, wk>>
Return == /\ s.running /\ left = 0 /\ Idle /\ Emit(<<[e |-> "RUNR", size |-> ents]>>) /\ UNCHANGED <<now, lg, ents, nv, nb, left, runs, own, wk>>
Tick == now < MaxT /\ now' = now + 1 /\ Quiet /\ UNCHANGED <<lg, ents, nv, nb, left, runs, own, wk>>
Set(k, r) == wk' = [wk EXCEPT ![k] = r]
Step(k) ==
  LET r == wk[k] IN
  CASE r.pc = "idle" -> /\ left > 0 /\ s.running /\ left' = left - 1 /\ Set(k, [r EXCEPT !.pc = "visit"])
                        /\ Emit(<<[e |-> "TB", t |-> k]>>) /\ UNCHANGED <<now, lg, ents, nv, nb, runs, own>>
    [] r.pc = "visit" -> nv' = nv + 1 /\ Set(k, [r EXCEPT !.pc = "backup"]) /\ Quiet /\ UNCHANGED <<now, lg, ents, nb, left, runs, own>>
    [] r.pc = "backup" -> nb' = nb + 1 /\ Set(k, [r EXCEPT !.pc = "lock"]) /\ Quiet /\ UNCHANGED <<now, lg, ents, nv, left, runs, own>>
    [] r.pc = "lock" -> /\ (own = 0 \/ Variant = "unlocked") /\ own' = k /\ Set(k, [r EXCEPT !.pc = "count", !.tmp = lg.completed])
                        /\ Emit(<<[e |-> "LK", t |-> k, tm |-> now]>>) /\ UNCHANGED <<now, lg, ents, nv, nb, left, runs>>
    [] r.pc = "count" -> /\ lg' = [lg EXCEPT !.completed = IF Variant \in {"unlocked", "reread"} THEN r.tmp + 1 ELSE @ + 1, !.last = now]
                         /\ Set(k, [r EXCEPT !.pc = "should"]) /\ Quiet /\ UNCHANGED <<now, ents, nv, nb, left, runs, own>>
    [] r.pc = "should" ->
         LET due == lg.completed - lg.lastLog >= Delta
             tdue == lg.prior + now - lg.start >= lg.thr /\ (Variant = "else" => ~due)
         IN /\ lg' = [lg EXCEPT !.lastLog = IF due THEN lg.completed ELSE @, !.thr = IF tdue THEN @ + Dt ELSE @]
            /\ Set(k, [r EXCEPT !.pc = IF due \/ tdue THEN "log" ELSE "unlock"]) /\ Quiet /\ UNCHANGED <<now, ents, nv, nb, left, runs, own>>
    [] r.pc = "log" -> /\ ents' = ents + 1 /\ lg' = [lg EXCEPT !.stamp = lg.prior + now - lg.start] /\ Set(k, [r EXCEPT !.pc = "unlock"])
                       /\ Emit(<<[e |-> "LOG", t |-> k, l |-> 1, n |-> 1, tm |-> now, en |-> En(lg.prior + now - lg.start, nv, nb, Val),
                                  x |-> <<nv, nb, Val, Zero>>, before |-> ents, size |-> ents + 1]>>)
                       /\ UNCHANGED <<now, nv, nb, left, runs, own>>
    [] r.pc = "unlock" -> /\ own' = (IF own = k THEN 0 ELSE own) /\ Set(k, [r EXCEPT !.pc = "idle"])
                          /\ Emit(<<[e |-> "LR", t |-> k, tm |-> now]>>) /\ UNCHANGED <<now, lg, ents, nv, nb, left, runs>>
Next == Run \/ Return \/ Tick \/ \E k \in 1..W : Step(k)
Spec == Init /\ [][Next]_vars
Clean == bad = {}
\* what the log promises, stated on the model itself
Complete == s.running \/ lg.completed = nb
Sizes == ents = s.ls[1].size
EverySo == ~s.running /\ runs > 0 => ents - 1 >= lg.completed \div Delta
=============================================================================
