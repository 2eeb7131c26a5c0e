----------------------------- MODULE TraceSearch ----------------------------
(* Checks recorded traces of the real search (all algorithms) against Search *)
(* (walks, backups, sharing, structure) and Algo (values and choices).       *)
EXTENDS SearchRules, TraceLib
VARIABLES tid, i, s
vars == <<tid, i, s>>
IsOn(id) == IOEnv.VERIF_PROP \in {id, "ALL"}
BadEnd(e) == IF e.e \in {"Crash", "Stuck", "Hang", "Livelock", "BadUnlock"} THEN { IOEnv.VERIF_PROP \o ":" \o e.e } ELSE {}
Bad(h, s0, e) == BadEnd(e) \cup BadAll(h, s0, e)
Init == tid \in 1..Len(Traces) /\ i = 1 /\ s = Init0
Next == /\ i <= Len(Ev(tid))
        /\ LET e == Ev(tid)[i] h == Hdr(tid) IN
             /\ Report(tid, i, Bad(h, s, e))
             /\ s' = UpdT(h, s, e)
        /\ i' = i + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
View == <<tid, i>>
=============================================================================
