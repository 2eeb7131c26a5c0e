-------------------------------- MODULE Race --------------------------------
(* What is ordered by what.  Every thread t has a vector clock vc[t]; a lock *)
(* (or atomic, or finished thread) passes on the clock of whoever released   *)
(* it.  An access to memory cell m is ordered after an earlier one by u iff  *)
(* the clock u had then is known to the accessing thread now.  Two accesses  *)
(* conflict unless both read or both are atomic.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NT == 0..40
RInit == [vc |-> [t \in {0} |-> [u \in {0} |-> 1]], rel |-> <<>>, rd |-> <<>>, wr |-> <<>>]
At(f, k)      == IF k \in DOMAIN f THEN f[k] ELSE 0
Join(f, g)    == [k \in DOMAIN f \cup DOMAIN g |-> LET a == At(f, k) b == At(g, k) IN IF a > b THEN a ELSE b]
VC(s, t)      == IF t \in DOMAIN s.vc THEN s.vc[t] ELSE (t :> 1)
Set(f, k, v)  == (k :> v) @@ f
Tick(v, t)    == Set(v, t, At(v, t) + 1)
\* accesses seen so far of cell m: <<thread, atomic>> -> <<clock, function>>
Acc(f, m)     == f[m]
Unordered(s, e, A) ==
  LET v == VC(s, e.t) IN { x \in DOMAIN A : x[1] # e.t /\ ~(x[2] /\ e.at) /\ A[x][1] > At(v, x[1]) }
RaceWith(s, e) ==
  CASE e.e = "RD" -> { <<"write", Acc(s.wr, e.m)[x][2]>> : x \in Unordered(s, e, Acc(s.wr, e.m)) }
    [] e.e = "WR" -> { <<"write", Acc(s.wr, e.m)[x][2]>> : x \in Unordered(s, e, Acc(s.wr, e.m)) } \cup { <<"read", Acc(s.rd, e.m)[x][2]>> : x \in Unordered(s, e, Acc(s.rd, e.m)) }
    [] OTHER -> {}
RaceBad(s, e) ==
  (IF e.e = "Crash" THEN {"C06:crash"} ELSE {}) \cup
  { "C06:unordered-" \o (IF e.e = "RD" THEN "read" ELSE "write") \o " in " \o e.f \o " and " \o x[1] \o " in " \o x[2] : x \in RaceWith(s, e) }
Rel(s, o) == IF o \in DOMAIN s.rel THEN s.rel[o] ELSE <<>>
RaceUpd(s, e) ==
  LET v == VC(s, e.t) IN
  CASE e.e = "BEGIN" -> [s EXCEPT !.rd = [m \in 1..e.cells |-> <<>>], !.wr = [m \in 1..e.cells |-> <<>>]]
    [] e.e = "ACQ"  -> [s EXCEPT !.vc = Set(@, e.t, Join(v, Rel(s, e.o)))]
    [] e.e = "REL"  -> [s EXCEPT !.rel = Set(@, e.o, Join(Rel(s, e.o), v)), !.vc = Set(@, e.t, Tick(v, e.t))]
    [] e.e = "FORK" -> [s EXCEPT !.vc = Set(Set(@, e.u, Tick(v, e.u)), e.t, Tick(v, e.t))]
    [] e.e = "JOIN" -> [s EXCEPT !.vc = Set(@, e.t, Join(v, VC(s, e.u)))]
    [] e.e = "RD"   -> [s EXCEPT !.rd[e.m] = Set(@, <<e.t, e.at>>, <<At(v, e.t), e.f>>)]
    [] e.e = "WR"   -> [s EXCEPT !.wr[e.m] = Set(@, <<e.t, e.at>>, <<At(v, e.t), e.f>>)]
    [] OTHER -> s
=============================================================================
