------------------------------ MODULE Observe -------------------------------
(* Observations of an environment.  fo: fully observable; own: 0 no own      *)
(* observation model, 1 own distribution, 2 own distribution and sampling.   *)
(* Code 50 is the next state itself, 0..9 the own model's observations.      *)
EXTENDS Dbl, FiniteSets
OC(c, name) == IF c THEN {} ELSE {"C27:" \o name}
OInit == [fo |-> TRUE, own |-> 0, model |-> <<>>]
OUpd(s, e) == IF e.e = "ON" THEN [fo |-> e.fo, own |-> e.own, model |-> e.model] ELSE s
Pairs(d) == { <<d[k][1], d[k][2]>> : k \in DOMAIN d }
Mass(d, x) == LET K == { k \in DOMAIN d : d[k][1] = x } IN IF K = {} THEN Zero ELSE d[CHOOSE k \in K : TRUE][2]
ObserveBad(s, e) ==
  CASE e.e = "ON" -> OC(e.says = e.fo, "observability")
    [] e.e = "OD" ->
         IF s.own > 0 THEN OC(e.ok /\ Pairs(e.d) = Pairs(s.model) /\ Len(e.d) = Len(s.model), "own-model-not-used")
         ELSE IF s.fo THEN OC(e.ok /\ Len(e.d) = 1 /\ e.d[1][1] = 50 /\ e.d[1][2] = One, "observation-is-not-the-next-state")
         ELSE OC(~e.ok, "silent-default-observation")
    [] e.e = "OS" ->
         IF s.own > 0 THEN OC({ e.d[k][1] : k \in DOMAIN e.d } \subseteq { s.model[k][1] : k \in DOMAIN s.model }
                              /\ \A k \in DOMAIN s.model : DLe(DAbs(DSub(Mass(e.d, s.model[k][1]), s.model[k][2])), DRat(2, 120)), "own-model-not-sampled")
         ELSE IF s.fo THEN OC(\A k \in DOMAIN e.d : e.d[k][1] = 50, "observation-is-not-the-next-state")
         ELSE OC(\A k \in DOMAIN e.d : e.d[k][1] = -1, "silent-default-observation")
    [] OTHER -> {}
=============================================================================
