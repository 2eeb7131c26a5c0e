------------------------------ MODULE PoolImpl ------------------------------
(* src/thts.cpp at the grain of its critical sections: workers, the caller,  *)
(* a second joining thread, one mutex, condition variables, a clock that can *)
(* advance at any moment.  Every observable step is fed to the monitor Pool; *)
(* `bad` collects the clauses it violates, deadlock freedom and the liveness *)
(* properties at the end are C02.                                            *)
(* Variant "fixed" is the code; "orig" the code before the two pool fixes;   *)
(* "adds" and "oldclock" mix up a request with the one it replaces;          *)
(* "pingpong" the tempting repair of signalling work_left_cv in the loop.    *)
EXTENDS Pool, TLC, Json
CONSTANTS W, Budgets, Limits, MaxClock, MaxRuns, MaxSets, UseJoiner, Variant, Spurious, KeepHist, Overlap

VARIABLES pc,        \* worker -> want | wait | chk2 | taken | run | ended | exit
          mpc,       \* main caller
          jpc,       \* joiner
          left, done,\* waiters of work_left_cv / work_done_cv (same set in variant orig)
          rem, t0, lim, working, alive, prob,   \* the pool's own fields
          wp,        \* problem a worker's current trial uses
          clk, runs, sets, bl, tr, cid,
          m, bad,    \* monitor
          hist       \* what happened, for replaying generated behaviours (hidden by the view)
core == <<pc, mpc, jpc, left, done, rem, t0, lim, working, alive, prob, wp, clk, runs, sets, bl, tr, cid>>
vars == <<core, m, bad, hist>>

Emit(e) == /\ m' = Upd(m, e) /\ bad' = bad \cup Bad(m, e)
NoEmit  == UNCHANGED <<m, bad>>
H(x)    == hist' = IF KeepHist THEN Append(hist, x) ELSE hist

WorkLeft == rem > 0 /\ ~(lim < Inf /\ clk - t0 >= lim)

Init == /\ pc = [w \in W |-> "want"] /\ mpc = "idle" /\ jpc = "off"
        /\ left = {} /\ done = {}
        /\ rem = 0 /\ t0 = 0 /\ lim = 0 /\ alive = TRUE /\ prob = 0
        /\ working = IF Variant = "orig" THEN Cardinality(W) ELSE 0
        /\ wp = [w \in W |-> 0] /\ clk = 0 /\ runs = 0 /\ sets = 0 /\ bl = FALSE /\ tr = 0 /\ cid = 0
        /\ m = [Init0(TRUE, FALSE, Cardinality(W), 0) EXCEPT !.phase = "live"] /\ bad = {} /\ hist = <<>>

(* ------------------------------- workers -------------------------------- *)
\* one critical section of worker_fn, from (re)acquiring the lock to waiting, leaving or picking up a trial
Exit(w) == pc' = [pc EXCEPT ![w] = "exit"] /\ UNCHANGED <<left, done, rem, working, wp, mpc, jpc>>
Take(w) == /\ pc' = [pc EXCEPT ![w] = "taken"] /\ rem' = rem - 1 /\ wp' = wp /\ UNCHANGED <<left, mpc, jpc>>
\* threads waiting in join are woken by work_done_cv (variant fixed)
WakeDone == /\ mpc' = IF "main" \in done THEN "joinAcq" ELSE mpc
            /\ jpc' = IF "joiner" \in done THEN "joinAcq" ELSE jpc
            /\ done' = {}
WorkerFixed(w, dec) ==
  IF ~alive THEN Exit(w) /\ (IF dec THEN TRUE ELSE TRUE)
  ELSE IF WorkLeft
       THEN Take(w) /\ working' = (IF dec THEN working - 1 ELSE working) + 1 /\ UNCHANGED done
       ELSE /\ pc' = [pc EXCEPT ![w] = "wait"] /\ left' = left \cup {w} /\ WakeDone
            /\ working' = (IF dec THEN working - 1 ELSE working) /\ UNCHANGED <<rem, wp>>
\* the original: decrement at loop head, one check that notifies, then the waiting loop
WakeAllOrig(w) == /\ left' = {} /\ done' = {}
                  /\ mpc' = IF "main" \in done THEN "joinAcq" ELSE mpc
                  /\ jpc' = IF "joiner" \in done THEN "joinAcq" ELSE jpc
WorkerOrig1(w) ==
  IF ~alive THEN Exit(w)
  ELSE /\ working' = working - 1
       /\ IF WorkLeft THEN /\ pc' = [pc EXCEPT ![w] = "chk2"] /\ UNCHANGED <<left, done, mpc, jpc>>
          ELSE /\ WakeAllOrig(w) /\ pc' = [x \in W |-> IF x = w THEN "chk2" ELSE IF x \in left THEN "rewant" ELSE pc[x]]
       /\ UNCHANGED <<rem, wp>>
WorkerOrig2(w) ==
  IF WorkLeft THEN Take(w) /\ working' = working + 1 /\ UNCHANGED done
  ELSE /\ pc' = [pc EXCEPT ![w] = "wait"] /\ left' = left \cup {w} /\ UNCHANGED <<done, rem, working, wp, mpc, jpc>>
NoChk2 == \A x \in W : pc[x] # "chk2"      \* a worker at chk2 still holds the lock

Worker(w) ==
  /\ \/ /\ pc[w] \in {"want", "ended"} /\ NoChk2
        /\ IF Variant = "orig" THEN WorkerOrig1(w) ELSE WorkerFixed(w, pc[w] = "ended")
     \/ /\ pc[w] = "rewant" /\ NoChk2       \* woken from the wait
        /\ IF ~alive THEN Exit(w)
           ELSE IF Variant = "orig" THEN WorkerOrig2(w) ELSE WorkerFixed(w, FALSE)
     \/ /\ pc[w] = "chk2" /\ WorkerOrig2(w)
  /\ NoEmit /\ H(<<"w", w>>) /\ UNCHANGED <<t0, lim, alive, prob, clk, runs, sets, bl, tr, cid>>

StartTrial(w) == /\ pc[w] = "taken" /\ pc' = [pc EXCEPT ![w] = "run"]
                 /\ wp' = [wp EXCEPT ![w] = prob] /\ tr' = tr + 1
                 /\ Emit([e |-> "TS", w |-> w, t |-> 0, p |-> prob, tm |-> clk, fa |-> -1]) /\ H(<<"w", w>>)
                 /\ UNCHANGED <<mpc, jpc, left, done, rem, t0, lim, working, alive, prob, clk, runs, sets, bl, cid>>
EndTrial(w)   == /\ pc[w] = "run" /\ pc' = [pc EXCEPT ![w] = "ended"]
                 /\ Emit([e |-> "TE", w |-> w, t |-> 0, k |-> 0, p |-> wp[w], tm |-> clk]) /\ H(<<"w", w>>)
                 /\ UNCHANGED <<mpc, jpc, left, done, rem, t0, lim, working, alive, prob, wp, clk, runs, sets, bl, tr, cid>>
\* (the decrement of num_threads_working and the next check are one critical section: Worker from "ended")
SpuriousWake(w) == /\ Spurious /\ pc[w] = "wait" /\ left' = left \ {w} /\ pc' = [pc EXCEPT ![w] = "rewant"]
                   /\ NoEmit /\ H(<<"s", w>>)
                   /\ UNCHANGED <<mpc, jpc, done, rem, t0, lim, working, alive, prob, wp, clk, runs, sets, bl, tr, cid>>

(* -------------------------------- caller -------------------------------- *)
MU == UNCHANGED <<rem, t0, lim, working, alive, prob, wp, clk, tr>>
RunCall(N, l, b) ==
  /\ mpc = "idle" /\ jpc \in {"off", "ret"} /\ runs < MaxRuns
  /\ m.idle \/ ~m.open \/ Overlap           \* otherwise one request at a time
  /\ mpc' = "runSet" /\ bl' = b /\ runs' = runs + 1 /\ cid' = cid + 1
  /\ jpc' = "off"
  /\ Emit([e |-> "RunC", c |-> cid, N |-> N, lim |-> l, bl |-> b, tm |-> clk])
  /\ rem' = rem /\ H(<<"Run", N, l, b>>)
  /\ UNCHANGED <<pc, left, done, t0, lim, working, alive, prob, wp, clk, sets, tr>>
RunSet == /\ mpc = "runSet" /\ NoChk2 /\ mpc' = "runNotify"
          /\ rem' = (IF Variant = "adds" THEN rem + m.N ELSE m.N) /\ t0' = (IF Variant = "oldclock" /\ working > 0 THEN t0 ELSE clk) /\ lim' = m.lim
          /\ NoEmit /\ H(<<"m">>) /\ UNCHANGED <<pc, jpc, left, done, working, alive, prob, wp, clk, runs, sets, bl, tr, cid>>
RunNotify == /\ mpc = "runNotify"
             /\ pc' = [x \in W |-> IF x \in left THEN "rewant" ELSE pc[x]] /\ left' = {}
             /\ IF Variant = "orig" THEN done' = {} /\ jpc' = (IF "joiner" \in done THEN "joinAcq" ELSE jpc)
                ELSE UNCHANGED <<done, jpc>>
             /\ mpc' = IF bl THEN "joinAcq" ELSE "idle"
             /\ (IF bl THEN NoEmit ELSE Emit([e |-> "RunR", c |-> cid - 1, bl |-> FALSE, tm |-> clk]))
             /\ H(<<"m">>) /\ UNCHANGED <<rem, t0, lim, working, alive, prob, wp, clk, runs, sets, bl, tr, cid>>
JoinCall == /\ mpc = "idle" /\ ~m.idle /\ mpc' = "joinAcq" /\ bl' = FALSE /\ cid' = cid + 1
            /\ Emit([e |-> "JoinC", c |-> cid, tm |-> clk]) /\ H(<<"Join">>)
            /\ UNCHANGED <<pc, jpc, left, done, rem, t0, lim, working, alive, prob, wp, clk, runs, sets, tr>>
JoinMain == /\ mpc = "joinAcq" /\ NoChk2
            /\ IF WorkLeft \/ working > 0
               THEN mpc' = "joinWait" /\ done' = done \cup {"main"} /\ NoEmit
               ELSE /\ mpc' = "idle" /\ UNCHANGED done
                    /\ Emit(IF bl THEN [e |-> "RunR", c |-> cid - 1, bl |-> TRUE, tm |-> clk]
                                  ELSE [e |-> "JoinR", c |-> cid - 1, tm |-> clk])
            /\ H(<<"m">>) /\ UNCHANGED <<pc, jpc, left, rem, t0, lim, working, alive, prob, wp, clk, runs, sets, bl, tr, cid>>
SetCall == /\ mpc = "idle" /\ sets < MaxSets /\ mpc' = "setAcq" /\ sets' = sets + 1
           /\ Emit([e |-> "SetC", mcts |-> FALSE, p |-> sets + 1, tm |-> clk]) /\ H(<<"Set">>)
           /\ UNCHANGED <<pc, jpc, left, done, rem, t0, lim, working, alive, prob, wp, clk, runs, bl, tr, cid>>
SetDo == /\ mpc = "setAcq" /\ (Variant = "orig" \/ NoChk2) /\ mpc' = "idle"
         /\ LET ok == ~WorkLeft /\ (Variant = "orig" \/ working = 0) IN
              /\ prob' = IF ok THEN sets ELSE prob
              /\ Emit([e |-> "SetR", p |-> sets, ok |-> ok, tm |-> clk])
         /\ H(<<"m">>) /\ UNCHANGED <<pc, jpc, left, done, rem, t0, lim, working, alive, wp, clk, runs, sets, bl, tr, cid>>
DelCall == /\ mpc = "idle" /\ jpc \in {"off", "ret"} /\ runs > 0 /\ mpc' = "delAcq"
           /\ Emit([e |-> "DelC", tm |-> clk]) /\ H(<<"Del">>)
           /\ UNCHANGED <<pc, jpc, left, done, rem, t0, lim, working, alive, prob, wp, clk, runs, sets, bl, tr, cid>>
DelDo == /\ mpc = "delAcq" /\ NoChk2 /\ mpc' = "delJoin" /\ alive' = FALSE
         /\ pc' = [x \in W |-> IF x \in left THEN "rewant" ELSE pc[x]] /\ left' = {}
         /\ NoEmit /\ H(<<"m">>) /\ UNCHANGED <<jpc, done, rem, t0, lim, working, prob, wp, clk, runs, sets, bl, tr, cid>>
DelJoin == /\ mpc = "delJoin" /\ \A w \in W : pc[w] = "exit" /\ mpc' = "end"
           /\ Emit([e |-> "DelR", tm |-> clk]) /\ H(<<"m">>)
           /\ UNCHANGED <<pc, jpc, left, done, rem, t0, lim, working, alive, prob, wp, clk, runs, sets, bl, tr, cid>>
Main == \/ \E N \in Budgets, l \in Limits, b \in BOOLEAN : RunCall(N, l, b)
        \/ RunSet \/ RunNotify \/ JoinCall \/ JoinMain \/ SetCall \/ SetDo \/ DelCall \/ DelDo \/ DelJoin
\* steps of calls already made (callers need not make further calls)
MainFair == RunSet \/ RunNotify \/ JoinMain \/ SetDo \/ DelDo \/ DelJoin

(* ---------------------------- second joiner ----------------------------- *)
JoinerCall == /\ UseJoiner /\ jpc = "off" /\ mpc = "idle" /\ m.open /\ ~m.idle /\ jpc' = "joinAcq"
              /\ Emit([e |-> "JoinC", c |-> 100, tm |-> clk]) /\ H(<<"Joiner">>)
              /\ UNCHANGED <<pc, mpc, left, done, rem, t0, lim, working, alive, prob, wp, clk, runs, sets, bl, tr, cid>>
JoinerDo == /\ jpc = "joinAcq" /\ NoChk2
            /\ IF WorkLeft \/ working > 0
               THEN jpc' = "joinWait" /\ done' = done \cup {"joiner"} /\ NoEmit
               ELSE jpc' = "ret" /\ UNCHANGED done /\ Emit([e |-> "JoinR", c |-> 100, tm |-> clk])
            /\ H(<<"j">>) /\ UNCHANGED <<pc, mpc, left, rem, t0, lim, working, alive, prob, wp, clk, runs, sets, bl, tr, cid>>

Tick == /\ clk < MaxClock /\ clk' = clk + 1 /\ NoEmit /\ H(<<"tick">>)
        /\ UNCHANGED <<pc, mpc, jpc, left, done, rem, t0, lim, working, alive, prob, wp, runs, sets, bl, tr, cid>>
Finished == mpc = "end" /\ ~KeepHist /\ UNCHANGED vars

Next == \/ \E w \in W : Worker(w) \/ StartTrial(w) \/ EndTrial(w) \/ SpuriousWake(w)
        \/ Main \/ JoinerCall \/ JoinerDo \/ Tick \/ Finished
Fairness == /\ \A w \in W : WF_core(Worker(w)) /\ WF_core(StartTrial(w)) /\ WF_core(EndTrial(w))
            /\ WF_core(MainFair) /\ WF_core(JoinerDo) /\ WF_core(Tick)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ Fairness
View == <<pc, mpc, jpc, left, done, rem, t0, lim, working, alive, prob, wp, clk, runs, sets, bl, cid, m, bad>>
Sym == Permutations(W)

(* ------------------------------ properties ------------------------------ *)
MonitorOk == bad = {}
\* C02, safety form: nobody is left waiting with nothing else able to happen (the clock apart)
NotStuck == ~( /\ mpc \in {"joinWait", "delJoin"} \/ jpc = "joinWait"
               /\ clk = MaxClock /\ ~ENABLED (\E w \in W : Worker(w) \/ StartTrial(w) \/ EndTrial(w))
               /\ ~ENABLED MainFair /\ ~ENABLED JoinerDo )
Returns    == (mpc # "idle") ~> (mpc \in {"idle", "end"})
JReturns   == (jpc = "joinAcq") ~> (jpc \in {"ret", "off"})
NumWorking == Variant = "fixed" => working = Cardinality({w \in W : pc[w] \in {"taken", "run", "ended"}}) \/ ~alive
\* used with -simulate: prints complete behaviours, to be replayed into the real pool
GenOut == mpc = "end" => PrintT("@@GEN " \o ToJson(hist))
=============================================================================
