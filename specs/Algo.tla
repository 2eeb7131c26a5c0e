-------------------------------- MODULE Algo --------------------------------
(* What each algorithm computes at a node, as formulas over the node, its    *)
(* children's stored values and the options h.                               *)
(* A snapshot v of a node is <<visits, backups, value, dp backups, dp value, *)
(* entropy backups, subtree entropy, local entropy, empirical backups,       *)
(* empirical value>>.  Algorithms: 0 UCT 1 PUCT 2 MENTS 3 RENTS 4 TENTS      *)
(* 5 DB-MENTS 6 DENTS 7 EST.                                                 *)
EXTENDS Search
Vec(f) == TLCEval(f)
NV(n) == n.v[1]    NB(n) == n.v[2]    VAL(n) == n.v[3]
DPN(n) == n.v[4]   DP(n) == n.v[5]
EN(n) == n.v[6]    SE(n) == n.v[7]
MN(n) == n.v[9]    MV(n) == n.v[10]
NA(h, n) == Len(Acts(h, n.st))
Sg(h, n, x) == IF Opp(h, n.ts) THEN DNeg(x) ELSE x
Sign(h, n) == IF Opp(h, n.ts) THEN DInt(-1) ELSE One
KidC(s, n, a) == s.nd[n.ch[a]]                               \* the chance child of decision node n for a
HasC(n, a) == a \in DOMAIN n.ch
KidSet(s, n) == { n.ch[k] : k \in DOMAIN n.ch }
Heur(h, st) == IF h.heur # 2 \/ Env(h, st).sink THEN Zero ELSE Env(h, st).h
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
SeqOfVals(q, S) == LET ks == SeqOf(S) IN Vec([i \in 1..Len(ks) |-> q[ks[i]]])

(********************* temperatures (C25) *********************)
Decay(f, x) ==
  CASE f = 1 -> DDiv(One, DSqrt(DAdd(One, x)))
    [] f = 2 -> DDiv(One, DLog(DAdd(DExp(One), x)))
    [] OTHER -> DDiv(DAdd(One, DExp(DInt(-5))), DAdd(One, DExp(DSub(x, DInt(5)))))
Decayed(f, init, floor, scale, visits) == IF f = 0 THEN init ELSE DMax(floor, DMul(init, Decay(f, DMul(scale, DInt(visits)))))
TempAt(h, n, visits) == Decayed(h.tdf, h.temp, h.tmin, IF n.dep = 0 /\ DLt(Zero, h.trs) THEN h.trs ELSE h.tsc, visits)
Temp(h, n) == TempAt(h, n, NV(n))
VTemp(h, n) == Decayed(h.vtdf, h.vt, h.vmin, IF n.dn /\ n.dep = 0 /\ DLt(Zero, h.vrs) THEN h.vrs ELSE h.vsc, NV(n))

(********************* Q-values and policies (C14, C15, C17) *********************)
ClampLog(w) == IF DLe(DPow(DInt(10), DInt(32)), w) THEN DInt(32) ELSE IF DLe(w, DPow(DInt(10), DInt(-32))) THEN DInt(-32) ELSE DLog(w)
MeanLog(h, st) == LET p == Env(h, st).pri IN DDiv(DSum(Vec([k \in 1..Len(p) |-> ClampLog(p[k])])), DInt(Len(p)))
PseudoQ(h, n, k) == DAdd(ClampLog(Env(h, n.st).pri[k]), IF h.shift THEN DSub(h.off, MeanLog(h, n.st)) ELSE Zero)
Est(h, c) == IF h.dp THEN DP(c) ELSE MV(c)                                    \* value estimate of DENTS and EST
Untried(h, n, k) == IF h.prior THEN PseudoQ(h, n, k) ELSE Sg(h, n, h.dq)
Q(h, s, n, k) ==                                                              \* from the mover's point of view
  LET a == Acts(h, n.st)[k] IN
  IF ~HasC(n, a) THEN Untried(h, n, k)
  ELSE LET c == KidC(s, n, a) IN
       CASE h.alg = 6 -> Sg(h, n, DAdd(Est(h, c), DMul(VTemp(h, n), SE(c))))
         [] h.alg = 7 -> Sg(h, n, Est(h, c))
         [] OTHER     -> Sg(h, n, VAL(c))
Qs(h, s, n) == Vec([k \in 1..NA(h, n) |-> Q(h, s, n, k)])
Over(qs, t) == Vec([k \in 1..Len(qs) |-> DDiv(qs[k], t)])
\* the sparse set of TENTS over the recorded values tq (already divided by the temperature)
SparseSet(tq) ==
  { k \in 1..Len(tq) :
      LET above == { j \in 1..Len(tq) : DLt(tq[k], tq[j]) \/ (DEq(tq[k], tq[j]) /\ j <= k) }
      IN DLt(DSum(SeqOfVals(tq, above)), DAdd(One, DMul(DInt(Cardinality(above)), tq[k]))) }
SpMax(tq) ==
  LET S == SparseSet(tq) sum == DSum(SeqOfVals(tq, S)) m == DInt(Cardinality(S))
      common == DDiv(DMul(DRat(1, 2), DMul(DSub(sum, One), DSub(sum, One))), DMul(m, m))
  IN DAdd(DRat(1, 2), DSum(Vec([i \in 1..Cardinality(S) |-> LET x == SeqOfVals(tq, S)[i] IN DSub(DDiv(DMul(x, x), DInt(2)), common)])))
Tiny == DPow(DInt(10), DInt(-16))
UniformIfTiny(w) == IF DLt(DSum(w), Tiny) THEN Vec([k \in 1..Len(w) |-> DRat(1, Len(w))]) ELSE w
\* weights: w (unnormalised) and norm such that the true weights are w * exp(norm)
Weights(h, s, n, pp) ==
  LET qt == Over(Qs(h, s, n), Temp(h, n)) mx == DMaxSeq(qt) IN
  CASE h.alg = 4 ->
         LET S == SparseSet(n.tq) common == DDiv(DSub(DSum(SeqOfVals(qt, S)), One), DInt(Cardinality(S)))
         IN UniformIfTiny(Vec([k \in 1..Len(qt) |-> DMax(Zero, DSub(qt[k], common))]))
    [] h.alg = 3 ->
         LET par(k) == IF n.dep = 0 THEN One ELSE LET a == Acts(h, n.st)[k] IN IF a \in DOMAIN pp THEN pp[a] ELSE Zero
         IN UniformIfTiny(Vec([k \in 1..Len(qt) |-> DMul(DExp(DSub(qt[k], mx)), par(k))]))
    [] OTHER -> Vec([k \in 1..Len(qt) |-> DExp(DSub(qt[k], mx))])
Lambda(h, n) ==
  LET eps == IF n.dep = 0 /\ DLt(Zero, h.reps) THEN h.reps ELSE h.meps
  IN IF ~DLt(Zero, eps) THEN Zero ELSE IF NV(n) = 0 THEN h.maxe ELSE DMin(h.maxe, DDiv(eps, DLog(DInt(NV(n) + 1))))
PolicyRaw(h, s, n, pp) ==
  LET w == Weights(h, s, n, pp) z == DSum(w) la == Lambda(h, n) m == NA(h, n)
      lt == IF DLt(Zero, h.pw) THEN DDiv(h.pw, DLog(DInt(NV(n) + 3))) ELSE Zero
      p(k) == LET b == DMul(DDiv(DSub(One, la), z), w[k])
                  c == IF DLt(Zero, h.pw) THEN DAdd(DMul(b, DSub(One, lt)), DMul(DMul(DSub(One, la), lt), Env(h, n.st).pri[k])) ELSE b
              IN DAdd(c, DDiv(la, DInt(m)))
  IN Vec([k \in 1..m |-> p(k)])
Policy(h, s, n, pp) == LET p == PolicyRaw(h, s, n, pp) IN Vec([k \in 1..Len(p) |-> IF DLt(p[k], Tiny) THEN Zero ELSE p[k]])
\* rounding in q/temp grows with the ratio: exponent of ten of the admissible error of probabilities
PolTol(h, s, n) == LET r == DMaxSeq(Vec([k \in 1..NA(h, n) |-> DAbs(DDiv(Q(h, s, n, k), Temp(h, n)))]))
                   IN DAdd(DPow(DInt(10), DInt(-9)), DMul(r, DPow(DInt(10), DInt(-14))))
Entropy(p) == DNeg(DSum(Vec([k \in 1..Len(p) |-> IF DLt(Zero, p[k]) THEN DMul(p[k], DLog(p[k])) ELSE Zero])))

(********************* value backups (C11, C14, C16, C17) *********************)
SoftValue(h, s, n, pp, tq) ==
  IF h.alg = 4 THEN Sg(h, n, DMul(Temp(h, n), SpMax(tq)))
  ELSE LET qt == Over(Qs(h, s, n), Temp(h, n)) w == Weights(h, s, n, pp)
       IN Sg(h, n, DMul(Temp(h, n), DAdd(DLog(DSum(w)), DMaxSeq(qt))))
\* magnitude against which rounding of a soft value is judged
SoftScale(h, s, n, tq) ==
  LET t == Temp(h, n) qm == DMaxSeq(Vec([k \in 1..NA(h, n) |-> DAbs(Q(h, s, n, k))])) IN
  IF h.alg = 4 THEN LET r == DMaxSeq(Vec([k \in 1..Len(tq) |-> DAbs(tq[k])])) IN DMul(t, DAdd(One, DMul(r, r)))
  ELSE DAdd(qm, t)
\* weighted mean over children ids K with weights w and values x
WMean(K, w(_), x(_)) ==
  LET ks == SeqOf({ k \in K : w(k) > 0 }) tot == DSum(Vec([i \in 1..Len(ks) |-> DInt(w(ks[i]))])) IN
  IF ks = <<>> THEN Zero ELSE DDiv(DSum(Vec([i \in 1..Len(ks) |-> DMul(DInt(w(ks[i])), x(ks[i]))])), tot)
WScale(K, w(_), x(_)) == LET ks == SeqOf({ k \in K : w(k) > 0 }) IN DMaxSeq(<<One>> \o Vec([i \in 1..Len(ks) |-> DAbs(x(ks[i]))]))
LocalReward(h, n) == Env(h, n.st).r[APos(h, n.st, n.a)]

(********************* UCB (C12) *********************)
KidVisits(s, n, a) == IF HasC(n, a) THEN NV(KidC(s, n, a)) ELSE 0
KidVal(s, n, a) == IF HasC(n, a) THEN VAL(KidC(s, n, a)) ELSE Zero
Bias(h, s, n) ==
  IF ~DEq(h.bias, DInt(-1)) THEN h.bias
  ELSE DMaxSeq(<<DRat(1, 1000)>> \o Vec([k \in 1..NA(h, n) |-> DAbs(KidVal(s, n, Acts(h, n.st)[k]))]))
Max1(x) == IF x > 0 THEN x ELSE 1
Explore(h, N, m) == IF h.alg = 0 THEN DSqrt(DDiv(DLog(DInt(Max1(N))), DInt(Max1(m)))) ELSE DDiv(DPow(DInt(Max1(N)), h.power), DInt(Max1(m)))
Ucb(h, s, n, k) ==
  LET a == Acts(h, n.st)[k]
      ex == DMul(Bias(h, s, n), Explore(h, NV(n), KidVisits(s, n, a)))
      ep == IF h.prior THEN DMul(ex, Env(h, n.st).pri[k]) ELSE ex
  IN DAdd(ep, Sg(h, n, KidVal(s, n, a)))
\* positions whose value is maximal, up to rounding
ArgMax(xs) == LET m == DMaxSeq(xs) IN { k \in 1..Len(xs) : DNear(xs[k], m, 11) }
UntriedSet(h, n) == { k \in 1..NA(h, n) : ~HasC(n, Acts(h, n.st)[k]) }
UcbChoice(h, s, n) ==
  IF ~h.prior /\ UntriedSet(h, n) # {} THEN UntriedSet(h, n)
  ELSE ArgMax(Vec([k \in 1..NA(h, n) |-> Ucb(h, s, n, k)]))
\* what the value of a choice is computed from: equal inputs are exact ties whatever the rounding
UcbInput(h, s, n, k) == LET a == Acts(h, n.st)[k] IN
  <<KidVisits(s, n, a), KidVal(s, n, a), IF h.prior THEN Env(h, n.st).pri[k] ELSE One>>

(********************* recommendations (C13) *********************)
\* [set of maximal positions, inputs of each position]
RecInput(h, s, n, k) == LET a == Acts(h, n.st)[k] IN
  IF HasC(n, a) THEN LET c == KidC(s, n, a) IN
       IF h.rmv THEN <<DInt(NV(c))>>
       ELSE <<CASE h.alg < 5 -> VAL(c) [] h.alg = 5 -> DP(c) [] OTHER -> Est(h, c)>>
  ELSE <<IF h.prior THEN Env(h, n.st).pri[k] ELSE Zero>>
RecSet(h, s, n) ==
  LET all == 1..NA(h, n)
      kids == { k \in all : HasC(n, Acts(h, n.st)[k]) }
      kid(k) == KidC(s, n, Acts(h, n.st)[k])
      best(S, x(_)) == LET m == DMaxSeq(Vec([i \in 1..Cardinality(S) |-> x(SeqOf(S)[i])])) IN { k \in S : DNear(x(k), m, 12) }
      nv(k) == DInt(NV(kid(k)))
      val(k) == Sg(h, n, VAL(kid(k)))
      q(k) == Q(h, s, n, k)
      nbOf(c) == IF h.alg = 5 \/ h.dp THEN DPN(c) ELSE MN(c)
      dpv(k) == Sg(h, n, IF h.alg = 5 THEN DP(kid(k)) ELSE Est(h, kid(k)))
  IN IF h.rmv THEN (IF kids = {} THEN all ELSE best(kids, nv))
     ELSE IF h.alg < 2 THEN (IF kids = {} THEN all ELSE best(kids, val))
     ELSE IF h.alg < 5 THEN
       LET met == { k \in kids : NV(kid(k)) >= h.thr } IN IF met # {} THEN best(met, q) ELSE best(all, q)
     ELSE IF kids = {} THEN all
     ELSE LET met == { k \in kids : nbOf(kid(k)) >= h.thr } IN IF met # {} THEN best(met, dpv) ELSE best(kids, dpv)
=============================================================================
