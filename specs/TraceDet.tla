------------------------------ MODULE TraceDet ------------------------------
(* C20: two runs of the same single-threaded search (or evaluation) with the *)
(* same non-zero seed, in different memory layouts, do the same step by step.*)
EXTENDS Integers, Sequences, TLC, TraceLib
VARIABLES tid, i
vars == <<tid, i>>
EvB(t) == Traces[t].evb
Of(e) == [f \in DOMAIN e \ {"t"} |-> e[f]]      \* which thread did it is immaterial
Step(t, k) ==
  LET A == Ev(t) B == EvB(t) IN
  IF k > Len(B) THEN { "C20:shorter-run" }
  ELSE IF k = Len(A) /\ Len(B) > Len(A) THEN { "C20:longer-run" }
  ELSE IF A[k].e # B[k].e THEN { "C20:another-step" }
  ELSE IF Of(A[k]) # Of(B[k]) THEN { "C20:same-seed-different-search" }
  ELSE {}
Init == tid \in 1..Len(Traces) /\ i = 1
Next == /\ i <= Len(Ev(tid))
        /\ Report(tid, i, Step(tid, i))
        /\ i' = IF Step(tid, i) = {} THEN i + 1 ELSE Len(Ev(tid)) + 1
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
=============================================================================
