------------------------------ MODULE TreeLocks -----------------------------
(* The locking discipline of tree search, over every interleaving: workers   *)
(* operate on nodes of a tree whose decision nodes may be shared between     *)
(* chance nodes (transposition table).  An operation locks its node, then    *)
(* possibly all the node's children one after another, works (a chance node  *)
(* may consult the table: the bucket's lock, then the table's; any node may  *)
(* draw a random number), and unlocks.  A worker may also log: logging lock, *)
(* then the root's.  Any worker may start any operation at any time, a       *)
(* superset of what trials do.  Order says in which order a chance node's    *)
(* children are locked: "address" (one global order, the code), "map" (each  *)
(* chance node in its own order, the code before the repair), "none" (not at *)
(* all).  The wait-for graph must stay acyclic.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS W, Order, Deep
DNodes == IF Deep THEN {"d0", "e1", "e2", "f1", "f2"} ELSE {"d0", "e1", "e2"}
CNodes == IF Deep THEN {"a", "b", "p", "q"} ELSE {"a", "b"}
\* the order in which each node meets its children (its map's order)
Kids(n) == CASE n = "d0" -> <<"a", "b">> [] n = "a" -> <<"e1", "e2">> [] n = "b" -> <<"e2", "e1">>
             [] n = "e1" /\ Deep -> <<"p">> [] n = "e2" /\ Deep -> <<"q">> [] n = "p" -> <<"f1", "f2">> [] n = "q" -> <<"f2", "f1">>
             [] OTHER -> <<>>
Global == <<"d0", "a", "b", "e1", "e2", "p", "q", "f1", "f2">>
Ordered(n) == IF n \in CNodes /\ Order = "address" THEN SelectSeq(Global, LAMBDA x : \E k \in 1..Len(Kids(n)) : Kids(n)[k] = x)
              ELSE IF n \in CNodes /\ Order = "none" THEN <<>> ELSE Kids(n)
Buckets == {"bucket1", "bucket2"}
\* what an operation acquires, in order; the last of it may be released early, all of it at the end
Plans == { <<n>> : n \in DNodes \cup CNodes }
         \cup { <<n>> \o Ordered(n) : n \in DNodes \cup CNodes }
         \cup { <<n, "rng">> : n \in DNodes \cup CNodes }
         \cup { <<n>> \o Ordered(n) \o <<"rng">> : n \in DNodes }
         \cup { <<n, b, "table">> : n \in CNodes, b \in Buckets }
         \cup { <<"log", "d0">>, <<"log">>, <<"pool">> }
VARIABLES plan, got, owner
vars == <<plan, got, owner>>
Locks == DNodes \cup CNodes \cup Buckets \cup {"table", "rng", "log", "pool"}
Init == plan = [w \in W |-> <<>>] /\ got = [w \in W |-> 0] /\ owner = [l \in Locks |-> 0]
Start(w) == plan[w] = <<>> /\ \E p \in Plans : plan' = [plan EXCEPT ![w] = p] /\ UNCHANGED <<got, owner>>
Acquire(w) == /\ plan[w] # <<>> /\ got[w] < Len(plan[w])
              /\ owner[plan[w][got[w] + 1]] = 0
              /\ owner' = [owner EXCEPT ![plan[w][got[w] + 1]] = w] /\ got' = [got EXCEPT ![w] = @ + 1] /\ UNCHANGED plan
Finish(w) == /\ plan[w] # <<>> /\ got[w] = Len(plan[w])
             /\ owner' = [l \in Locks |-> IF owner[l] = w THEN 0 ELSE owner[l]] /\ plan' = [plan EXCEPT ![w] = <<>>] /\ got' = [got EXCEPT ![w] = 0]
Next == \E w \in W : Start(w) \/ Acquire(w) \/ Finish(w)
Spec == Init /\ [][Next]_vars
Waits(w) == IF plan[w] # <<>> /\ got[w] < Len(plan[w]) THEN owner[plan[w][got[w] + 1]] ELSE 0
RECURSIVE Chase(_, _)
Chase(w, seen) == LET x == Waits(w) IN IF x = 0 THEN FALSE ELSE IF x \in seen THEN TRUE ELSE Chase(x, seen \cup {x})
NoDeadlock == \A w \in W : ~Chase(w, {w})
\* a lock is owned exactly by the worker whose operation has acquired it
Owned == \A l \in Locks : owner[l] # 0 => \E k \in 1..got[owner[l]] : plan[owner[l]][k] = l
Symm == Permutations(W)
=============================================================================
