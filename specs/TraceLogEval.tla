---------------------------- MODULE TraceLogEval ----------------------------
(* Checks recorded traces of the search log and of Monte-Carlo evaluation.   *)
EXTENDS Logger, Evaluate, TraceLib
VARIABLES tid, i, lg, ev
vars == <<tid, i, lg, ev>>
IsLog(t) == Hdr(t).kind = "log"
Init == tid \in 1..Len(Traces) /\ i = 1 /\ lg = LInit /\ ev = VInit
Next == /\ i <= Len(Ev(tid))
        /\ LET e == Ev(tid)[i] h == Hdr(tid) IN
             IF IsLog(tid) THEN Report(tid, i, LoggerBad(h, lg, e)) /\ lg' = LoggerUpd(lg, e) /\ UNCHANGED ev
             ELSE Report(tid, i, EvalBad(h, ev, e)) /\ ev' = EvalUpd(h, ev, e) /\ UNCHANGED lg
        /\ i' = i + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
View == <<tid, i>>
=============================================================================
