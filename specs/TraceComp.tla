------------------------------ MODULE TraceComp -----------------------------
(* Checks recorded traces of the parts without threads against their         *)
(* specifications: Sampling, Random, Context, Values, Decay, Observe.        *)
EXTENDS Sampling, Values, Context, Random, Decay, Observe, TraceLib
VARIABLES tid, i, cat, ctx, ob
vars == <<tid, i, cat, ctx, ob>>
Init == tid \in 1..Len(Traces) /\ i = 1 /\ cat = CInit /\ ctx = {} /\ ob = OInit
End(e) == IF e.e \in {"Crash", "Stuck", "Hang", "Livelock"} THEN { IOEnv.VERIF_PROP \o ":" \o e.e } ELSE {}
Bad(e) == End(e) \cup SamplingBad(cat, e) \cup ValuesBad(e) \cup ContextBad(ctx, e) \cup RandomBad(e) \cup DecayBad(e) \cup ObserveBad(ob, e)
Next == /\ i <= Len(Ev(tid))
        /\ LET e == Ev(tid)[i] IN
             /\ Report(tid, i, Bad(e))
             /\ cat' = CUpd(cat, e) /\ ctx' = XUpd(ctx, e) /\ ob' = OUpd(ob, e)
        /\ i' = i + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
View == <<tid, i>>
=============================================================================
