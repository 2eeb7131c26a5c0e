------------------------------ MODULE Context -------------------------------
(* The per-trial context: two independent maps from keys to objects.         *)
(* State: a set of <<context, constant?, key, object>>.                      *)
EXTENDS Integers, Sequences, FiniteSets
XOf(m, e)  == { x \in m : x[1] = e.c /\ x[2] = e.cst /\ x[3] = e.k }
XUpd(m, e) ==
  CASE e.e = "X0" -> {}
    [] e.e = "XP" -> (m \ XOf(m, e)) \cup {<<e.c, e.cst, e.k, e.v>>}
    [] e.e = "XE" -> m \ XOf(m, e)
    [] OTHER -> m
XGet(m, e) == IF XOf(m, e) = {} THEN -1 ELSE (CHOOSE x \in XOf(m, e) : TRUE)[4]    \* -1: an error is raised
ContextBad(m, e) ==
  IF e.e # "XG" THEN {} ELSE
       (IF XGet(m, e) = -1 /\ e.v # -1 THEN {"C23:absent-key-found"} ELSE {})
  \cup (IF XGet(m, e) # -1 /\ e.v # XGet(m, e) THEN {"C23:another-object"} ELSE {})
  \cup (IF XGet(m, e) # -1 /\ ~e.ok THEN {"C23:stored-object-changed-or-destroyed"} ELSE {})
=============================================================================
