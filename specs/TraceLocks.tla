------------------------------ MODULE TraceLocks ----------------------------
(* Checks the recorded lock operations of the real code against Locks.       *)
EXTENDS Locks, TraceLib
VARIABLES tid, i, s
vars == <<tid, i, s>>
Init == tid \in 1..Len(Traces) /\ i = 1 /\ s = LInit
Next == /\ i <= Len(Ev(tid))
        /\ LET e == Ev(tid)[i] IN
             /\ Report(tid, i, LockBad(s, e))
             /\ s' = LockUpd(s, e)
        /\ i' = i + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
View == <<tid, i>>
=============================================================================
