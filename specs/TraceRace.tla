------------------------------ MODULE TraceRace -----------------------------
(* Checks the recorded memory accesses of the real code against Race.        *)
EXTENDS Race, TraceLib
VARIABLES tid, i, s
vars == <<tid, i, s>>
Init == tid \in 1..Len(Traces) /\ i = 1 /\ s = RInit
Next == /\ i <= Len(Ev(tid))
        /\ LET e == Ev(tid)[i] IN
             /\ Report(tid, i, RaceBad(s, e))
             /\ s' = RaceUpd(s, e)
        /\ i' = i + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
View == <<tid, i>>
=============================================================================
