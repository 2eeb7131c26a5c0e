----------------------------- MODULE TracePool ------------------------------
(* Checks recorded traces of the real ThtsPool against Pool.                 *)
EXTENDS Pool, TraceLib
VARIABLES tid, i, s
vars == <<tid, i, s>>
Init == tid \in 1..Len(Traces) /\ i = 1 /\ s = Init0(Hdr(tid).jitter, Hdr(tid).prefer, Hdr(tid).n, Min2(Hdr(tid).depth, 2))
Next == /\ i <= Len(Ev(tid))
        /\ LET e == Ev(tid)[i] IN
             /\ Report(tid, i, Bad(s, e))
             /\ s' = Upd(s, e)
        /\ i' = i + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
View == <<tid, i>>
=============================================================================
