------------------------------ MODULE TracePair -----------------------------
(* C18: two runs of the real search with the same random choices, on a game  *)
(* and on its negation with the other player to move first.  Step by step    *)
(* the runs must do the same things with negated values.                     *)
EXTENDS Integers, Sequences, TLC, Dbl, TraceLib
VARIABLES tid, i
vars == <<tid, i>>
EvB(t) == Traces[t].evb
Neg(a, b) == DNearS(a, DNeg(b), 11, a) \/ (DIsNaN(a) /\ DIsNaN(b))
NegSeq(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Neg(a[k], b[k])
\* snapshots: counters and the (unsigned) local entropy equal, values negated
NegSnap(a, b) == \A f \in 1..10 : IF f \in {3, 5, 7, 10} THEN Neg(a[f], b[f])
                                  ELSE IF f = 8 THEN Neg(a[f], DNeg(b[f])) ELSE a[f] = b[f]
SamePol(p, q) == Len(p) = Len(q) /\ \A k \in 1..Len(p) : IF k = Len(p) THEN p[k] = q[k] ELSE DNear(p[k], q[k], 11)
SameF(a, b, F) == \A f \in F : Has(a, f) = Has(b, f) /\ (Has(a, f) => a[f] = b[f])
C(name, ok) == IF ok THEN {} ELSE { "C18:" \o name }
SameNode(x, y) == SameF(x, y, {"n", "dn", "s", "d", "p", "a", "nv", "nc", "ch"}) /\ x.ts + 1 = y.ts
Bad(a, b) ==
  IF a.e # b.e THEN { "C18:another-step" } ELSE
  C("another-walk", SameF(a, b, {"t", "n", "c", "by", "p", "o", "s", "d", "leaf", "a", "a2", "ch", "nc", "k", "th", "keep", "bogus", "grew"}) \/ a.e = "PP")
  \cup C("another-recommendation", a.e = "REC" => a.rs = b.rs)
  \cup C("another-child", a.e = "LKP" => a.rs = b.rs)
  \cup C("mover", Has(a, "opp") => a.opp # b.opp)
  \cup C("heuristic-not-negated", Has(a, "hv") => Neg(a.hv, b.hv))
  \cup C("values-not-negated", (Has(a, "y") => NegSnap(a.y, b.y)) /\ (Has(a, "x") => NegSnap(a.x, b.x)))
  \cup C("returns-not-negated", a.e \in {"BD", "BC"} => Neg(a.sa, b.sa) /\ Neg(a.st, b.st) /\ NegSeq(a.rb, b.rb) /\ NegSeq(a.ra, b.ra))
  \cup C("another-policy", a.e = "SA" => SamePol(a.pol, b.pol))
  \cup C("another-tree", a.e = "SNAP" => a.n = b.n /\ Len(a.nodes) = Len(b.nodes)
            /\ \A k \in 1..Len(a.nodes) : SameNode(a.nodes[k], b.nodes[k]) /\ NegSnap(a.nodes[k].y, b.nodes[k].y))
Step(t, k) ==
  LET A == Ev(t) B == EvB(t) IN
  (IF A[k].e \in {"Crash", "Stuck", "Hang", "Livelock", "BadUnlock"} THEN { "C18:" \o A[k].e } ELSE {})
  \cup (IF k > Len(B) THEN { "C18:shorter-run" }
        ELSE IF k = Len(A) /\ Len(B) > Len(A) THEN { "C18:longer-run" } ELSE Bad(A[k], B[k]))
Init == tid \in 1..Len(Traces) /\ i = 1
\* after the first difference the runs have nothing more to tell
Next == /\ i <= Len(Ev(tid))
        /\ Report(tid, i, Step(tid, i))
        /\ i' = IF Step(tid, i) = {} THEN i + 1 ELSE Len(Ev(tid)) + 1
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
=============================================================================
