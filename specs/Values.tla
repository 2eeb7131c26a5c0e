------------------------------- MODULE Values -------------------------------
(* The built-in state, observation and action values: a value is a type and  *)
(* its contents; everything else about it is a function of the two.          *)
EXTENDS Integers, Sequences, FiniteSets
Same(a, b) == a.ty = b.ty /\ a.c = b.c
VC(c, name) == IF c THEN {} ELSE {"C24:" \o name}
All(s) == { s[k] : k \in DOMAIN s }
ValuesBad(e) ==
  CASE e.e = "VE" ->
         VC(All(e.eq) = {Same(e.a, e.b)},                            "equality")
    \cup VC(Same(e.a, e.b) => FALSE \notin All(e.he),                "equal-values-hash-differently")
    \cup VC(Cardinality(All(e.pa)) = 1 /\ Cardinality(All(e.pb)) = 1,"printed-form-depends-on-the-reference")
    \cup VC(e.a.ty = e.b.ty => ((e.pa = e.pb) <=> Same(e.a, e.b)),   "printing")
    [] e.e = "VD" ->
         VC(e.eq = (e.d1 = e.d2 /\ Same(e.a, e.b)),                  "table-key-equality")
    \cup VC((e.d1 = e.d2 /\ Same(e.a, e.b)) => e.he,                 "table-key-hash")
    [] e.e = "VL" ->
         LET last(k) == LET S == { j \in DOMAIN e.ins : Same(e.ins[j].k, k) } IN
                        IF S = {} THEN -1 ELSE e.ins[CHOOSE j \in S : \A i \in S : i <= j].v
             distinct == { k \in DOMAIN e.ins : \A j \in 1..(k - 1) : ~Same(e.ins[j].k, e.ins[k].k) }
         IN VC(\A j \in DOMAIN e.look : e.look[j].v = last(e.look[j].k), "lookup-by-equal-key")
            \cup VC(e.size = Cardinality(distinct),                   "equal-keys-stored-twice")
    [] e.e = "VP" ->                                                  \* a collection prints each of its elements once, in some order
         LET n == Len(e.el)
             Join(p) == LET f[k \in 0..n] == IF k = 0 THEN "" ELSE f[k - 1] \o (IF k > 1 THEN "," ELSE "") \o e.el[p[k]] IN f[n]
         IN VC(\E p \in { q \in [1..n -> 1..n] : \A i, j \in 1..n : q[i] = q[j] => i = j } : e.s = e.open \o Join(p) \o e.close, "printed-collection")
    [] OTHER -> {}
=============================================================================
