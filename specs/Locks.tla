-------------------------------- MODULE Locks -------------------------------
(* When can threads that nest locks block each other forever?  A nesting is  *)
(* a thread t wanting lock o while holding the locks h.  Threads t1..tk can  *)
(* be stuck together iff each holds a lock the next one wants, they are      *)
(* distinct, and no lock is held by two of them (a common outer lock would   *)
(* keep them apart).  Nestings come from operations of identical workers, so *)
(* such a combination is a deadlock of some schedule even if the recorded    *)
(* one happened to avoid it.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LInit == [nest |-> {}]
Range(q) == { q[k] : k \in 1..Len(q) }
\* nestings on no cycle are dropped first
RECURSIVE Trim(_)
Trim(N) == LET held == UNION { n[2] : n \in N }
               want == { n[3] : n \in N }
               F == { n \in N : n[3] \in held /\ n[2] \cap want # {} } IN IF F = N THEN N ELSE Trim(F)
Compatible(a, b) == a[1] # b[1] /\ a[2] \cap b[2] = {}
Two(N) == { p \in N \X N : Compatible(p[1], p[2]) /\ p[1][3] \in p[2][2] /\ p[2][3] \in p[1][2] }
Three(N) == { p \in N \X N \X N : /\ Compatible(p[1], p[2]) /\ p[1][3] \in p[2][2]
                                  /\ Compatible(p[2], p[3]) /\ p[2][3] \in p[3][2]
                                  /\ Compatible(p[1], p[3]) /\ p[3][3] \in p[1][2] }
LockBad(s, e) ==
  CASE e.e = "End" -> LET N == Trim(s.nest) IN
         IF N = {} THEN {}
         ELSE LET P == Two(N) IN
              IF P # {} THEN {"C07:two threads can block each other"}
              ELSE IF Cardinality(N) <= 60 /\ Three(N) # {} THEN {"C07:three threads can block each other"} ELSE {}
    [] e.e = "Nest" -> IF e.o \in Range(e.h) THEN {"C07:a thread waits for a lock it holds"} ELSE {}
    [] e.e \in {"TrialBegin", "TrialEnd"} -> IF e.held # <<>> THEN {"C07:a node's lock is kept beyond the operation"} ELSE {}
    [] e.e = "Back" -> IF e.held # <<>> THEN {"C07:a node's lock is kept by the caller"} ELSE {}
    [] e.e \in {"Stuck", "Hang", "Livelock", "BadUnlock", "Crash"} -> {"C07:" \o e.e}
    [] OTHER -> {}
LockUpd(s, e) ==
  IF e.e = "Nest" THEN [s EXCEPT !.nest = @ \cup {<<e.t, Range(e.h), e.o>>}] ELSE s
=============================================================================
