------------------------------ MODULE RaceModel -----------------------------
(* The locking discipline of tree search seen as memory accesses, fed to the *)
(* monitor Race over every interleaving: a worker's operation locks a node   *)
(* (and, for a backup, its child), writes the node's cell, reads the child's *)
(* and unlocks; the main thread forks the workers, joins them and then reads *)
(* everything.  Variants: "locked" (the code), "child" (the child's cell is  *)
(* read without its lock), "early" (the node is unlocked before its cell is  *)
(* written), "nojoin" (the main thread reads without joining).  The monitor  *)
(* must accept every behaviour of the first and find the race in the others. *)
EXTENDS Race
CONSTANTS W, Ops, Variant
Node == 1  Child == 2
E(k, t, f) == [e |-> k, t |-> t] @@ f
Lk(k, t, o) == E(k, t, [o |-> o, u |-> -1])
Mem(k, t, m) == E(k, t, [m |-> m, at |-> FALSE, f |-> "op"])
\* what a worker does, as a sequence of events; "L" blocks until the lock is free
Backup(t) == IF Variant = "child" THEN <<Lk("ACQ", t, Node), Mem("RD", t, Child), Mem("WR", t, Node), Lk("REL", t, Node)>>
             ELSE IF Variant = "early" THEN <<Lk("ACQ", t, Node), Lk("ACQ", t, Child), Mem("RD", t, Child), Lk("REL", t, Child), Lk("REL", t, Node), Mem("WR", t, Node)>>
             ELSE <<Lk("ACQ", t, Node), Lk("ACQ", t, Child), Mem("RD", t, Child), Mem("WR", t, Node), Lk("REL", t, Child), Lk("REL", t, Node)>>
Visit(t, n)  == <<Lk("ACQ", t, n), Mem("RD", t, n), Mem("WR", t, n), Lk("REL", t, n)>>
VARIABLES todo, n, own, s, bad, main
vars == <<todo, n, own, s, bad, main>>
Emit(e) == s' = RaceUpd(s, e) /\ bad' = bad \cup RaceBad(s, e)
Init == /\ todo = [w \in W |-> <<>>] /\ n = [w \in W |-> 0] /\ own = [o \in {Node, Child} |-> 0]
        /\ s = RaceUpd(RInit, E("BEGIN", 0, [cells |-> 2])) /\ bad = {} /\ main = 0
Fork == /\ main < Cardinality(W) /\ Emit(E("FORK", 0, [o |-> 0, u |-> main + 1])) /\ main' = main + 1 /\ UNCHANGED <<todo, n, own>>
Begin(w) == /\ w <= main /\ todo[w] = <<>> /\ n[w] < Ops
            /\ \E p \in {Backup(w), Visit(w, Node), Visit(w, Child)} : todo' = [todo EXCEPT ![w] = p]
            /\ n' = [n EXCEPT ![w] = @ + 1] /\ UNCHANGED <<own, s, bad, main>>
Step(w) == /\ todo[w] # <<>>
           /\ LET e == Head(todo[w]) IN
                /\ e.e = "ACQ" => own[e.o] = 0
                /\ own' = IF e.e = "ACQ" THEN [own EXCEPT ![e.o] = w] ELSE IF e.e = "REL" THEN [own EXCEPT ![e.o] = 0] ELSE own
                /\ Emit(e)
           /\ todo' = [todo EXCEPT ![w] = Tail(@)] /\ UNCHANGED <<n, main>>
Idle(w) == todo[w] = <<>> /\ n[w] = Ops
JoinW == /\ main >= Cardinality(W) /\ main < 2 * Cardinality(W) /\ Variant # "nojoin"
        /\ LET w == main - Cardinality(W) + 1 IN Idle(w) /\ Emit(E("JOIN", 0, [o |-> 0, u |-> w]))
        /\ main' = main + 1 /\ UNCHANGED <<todo, n, own>>
Read == /\ main = (IF Variant = "nojoin" THEN 1 ELSE 2) * Cardinality(W) /\ \A w \in W : Idle(w)
        /\ Emit(Mem("RD", 0, Node)) /\ main' = 100 /\ UNCHANGED <<todo, n, own>>
Next == Fork \/ JoinW \/ Read \/ \E w \in W : Begin(w) \/ Step(w)
Spec == Init /\ [][Next]_vars
NoRace == bad = {}
=============================================================================
