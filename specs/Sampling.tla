------------------------------ MODULE Sampling ------------------------------
(* Drawing keys.  A distribution is a sequence of <<key, weight>> pairs with *)
(* distinct keys; weights are doubles (Dbl).  A recorded draw gives, for the *)
(* enumerated random numbers, the mass with which each key came out.         *)
(* A categorical distribution is a state machine: updates change the current *)
(* weights; the alias method may lag behind until the refresh interval.      *)
EXTENDS Dbl, FiniteSets, TLC
NK == 12
Keys(w)   == { w[k][1] : k \in DOMAIN w }
Wt(w, x)  == LET K == { k \in DOMAIN w : w[k][1] = x } IN IF K = {} THEN Zero ELSE w[CHOOSE k \in K : TRUE][2]
Tot(w)    == DSum([k \in DOMAIN w |-> w[k][2]])
P(w, x)   == DDiv(Wt(w, x), Tot(w))
\* update of one key
Put(w, x, v) == IF x \in Keys(w) THEN [k \in DOMAIN w |-> IF w[k][1] = x THEN <<x, v>> ELSE w[k]] ELSE Append(w, <<x, v>>)

C(c, name) == IF c THEN {} ELSE {"C19:" \o name}
Edge(e)    == { e.edge[k] : k \in DOMAIN e.edge }
\* p(x): the exact probability of key x; support: the keys that may come out at all
Draws(e, p(_), support, tol) ==
       C(e.err = Zero /\ -1 \notin Edge(e),             "draw-fails")
  \cup C(e.other = Zero /\ -2 \notin Edge(e),           "key-not-in-the-distribution")
  \cup C(\A x \in 0..(NK - 1) : x \notin support => e.got[x + 1] = Zero /\ x \notin Edge(e), "zero-weight-key")
  \cup C(\A x \in 0..(NK - 1) : DLe(DAbs(DSub(e.got[x + 1], p(x))), tol), "frequency")
Support(w) == { x \in Keys(w) : DLt(Zero, Wt(w, x)) }
Tol(n, g)  == DRat(n + 2, g)
FromMap(e, w) == LET p(x) == P(w, x) IN Draws(e, p, Support(w), Tol(Len(w), e.g))

\* a map whose masses are declared to sum to one but do not: a draw may fail, but not return anything impossible
Skewed(e, w) ==
       C(e.other = Zero /\ -2 \notin Edge(e),           "key-not-in-the-distribution")
  \cup C(\A x \in 0..(NK - 1) : x \notin Support(w) => e.got[x + 1] = Zero /\ x \notin Edge(e), "zero-weight-key")

Uniform(e) ==
  LET n == Len(e.ks) p(x) == DRat(Cardinality({ k \in 1..n : e.ks[k] = x }), n) IN
  Draws(e, p, { e.ks[k] : k \in 1..n }, DRat(1, 100000))
Mixture(e) ==
  LET cs == e.cs
      p(x) == DSum([k \in DOMAIN cs |-> DMul(cs[k].w, P(cs[k].m, x))])
  IN Draws(e, p, UNION { Support(cs[k].m) : k \in DOMAIN cs }, Tol(2 * Len(cs) + 8, e.g))
MaxKeys(e) ==
  LET m == DMaxSeq([k \in DOMAIN e.w |-> e.w[k][2]])
      best == { e.w[k][1] : k \in { j \in DOMAIN e.w : DEq(e.w[j][2], m) } }
      p(x) == IF x \in best THEN DRat(1, Cardinality(best)) ELSE Zero
  IN Draws(e, p, best, DRat(1, 100000))

\* the categorical distribution: cur = current weights, snap = weights at the last refresh, n = updates since then
CInit  == [on |-> FALSE, alias |-> FALSE, freq |-> 1, cur |-> <<>>, snap |-> <<>>, n |-> 0]
CUpd(s, e) ==
  CASE e.e = "CN" -> [on |-> TRUE, alias |-> e.alias, freq |-> e.freq, cur |-> e.w, snap |-> e.w, n |-> 0]
    [] e.e = "CR" -> [s EXCEPT !.cur = e.w, !.snap = e.w, !.n = 0]
    [] e.e = "CU" -> LET w == Put(s.cur, e.k, e.w) IN
                     IF s.n + 1 >= s.freq THEN [s EXCEPT !.cur = w, !.snap = w, !.n = 0] ELSE [s EXCEPT !.cur = w, !.n = @ + 1]
    [] OTHER -> s
CBad(s, e) ==
  IF ~s.alias THEN FromMap(e, s.cur)
  ELSE LET b == FromMap(e, s.cur) IN IF b = {} \/ s.n = 0 THEN b ELSE IF FromMap(e, s.snap) = {} THEN {} ELSE b

SamplingBad(s, e) ==
  CASE e.e = "WM" -> IF ~e.norm \/ e.one THEN FromMap(e, e.w) ELSE Skewed(e, e.w)
    [] e.e = "CS" -> CBad(s, e)
    [] e.e = "DU" -> Uniform(e)
    [] e.e = "MX" -> Mixture(e)
    [] e.e = "MK" -> MaxKeys(e)
    [] OTHER -> {}
=============================================================================
