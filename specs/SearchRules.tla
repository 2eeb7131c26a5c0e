----------------------------- MODULE SearchRules ----------------------------
(* Every clause of the search properties, as predicates of a state s0 of     *)
(* Search and an observed event e: stored numbers, choices, recommendations, *)
(* structure, snapshots, look-ups and printed trees.                         *)
EXTENDS Algo

(***************************************************************************)
(* Ghost state kept on top of Search: the Q-values a TENTS node has         *)
(* recorded, and the policies a RENTS trial has used so far (by depth).     *)
(***************************************************************************)
ParPol(s0, e, n) == LET r == Tr(s0, e.t) d == n.ts - 1 IN IF d \in DOMAIN r.pols THEN r.pols[d] ELSE NoMap
\* the node as it was when the selection began: without the child this selection created
Before(s0, e) == LET n == s0.nd[e.n] mk == Tr(s0, e.t).mk IN
  [n EXCEPT !.ch = [k \in { k \in DOMAIN n.ch : n.ch[k] \notin mk } |-> n.ch[k]]]
PolMap(h, n, p) == [a \in { Acts(h, n.st)[k] : k \in { k \in 1..Len(p) : DLt(Zero, p[k]) } } |-> p[APos(h, n.st, a)]]
InitTq(h, s0, n) == Over(Qs(h, s0, n), TempAt(h, n, 0))
BackedAction(s0, e) == LET r == Tr(s0, e.t) IN IF r.pc = "B" /\ r.k >= 1 /\ r.k <= Len(r.path) THEN r.path[r.k][3] ELSE -1
NewTq(h, s0, n, e) ==
  LET a == BackedAction(s0, e) IN
  IF ~Valid(h, n.st, a) \/ n.tq = <<>> THEN n.tq
  ELSE LET k == APos(h, n.st, a) IN Vec([j \in 1..Len(n.tq) |-> IF j = k THEN DDiv(Q(h, s0, n, k), Temp(h, n)) ELSE n.tq[j]])
UpdT(h, s0, e) ==
  LET s1 == Upd(h, s0, e) IN
  IF h.alg = 4 /\ e.e \in {"ROOT", "ND"} THEN
       LET n == s1.nd[e.n] IN [s1 EXCEPT !.nd[e.n].tq = InitTq(h, s1, n)]
  ELSE IF h.alg = 4 /\ e.e = "BD" /\ Known(s0, e.n) THEN [s1 EXCEPT !.nd[e.n].tq = NewTq(h, s0, s0.nd[e.n], e)]
  ELSE IF h.alg = 3 /\ e.e = "SA" /\ Known(s0, e.n) THEN
       LET n == Before(s0, e) p == Policy(h, s0, n, ParPol(s0, e, n))
       IN SetTr(s1, e.t, [Tr(s1, e.t) EXCEPT !.pols = (n.ts :> PolMap(h, n, p)) @@ @])
  ELSE s1

(***************************************************************************)
(* Stored numbers change only when their own node's operations change them. *)
(***************************************************************************)
ValueProp(h, f) ==
  CASE f \in {1, 2, 4, 6, 9} -> {"C08"}
    [] f = 3 -> IF h.alg < 2 THEN {"C11"} ELSE IF h.alg < 6 THEN {"C14"} ELSE IF h.alg = 6 THEN {"C17"} ELSE {}
    [] f \in {5, 10} -> {"C16"}
    [] OTHER -> {"C17"}
Diff(h, a, b, name) ==
  UNION { UNION { X(id, name, a[f] = b[f] \/ (f \in {3, 5, 7, 8, 10} /\ DEq(a[f], b[f]))) : id \in ValueProp(h, f) } : f \in 1..10 }
BadStored(h, s0, e) ==
  IF ~"x" \in DOMAIN e \/ ~Known(s0, e.n) \/ e.e = "PP" THEN {}
  ELSE Diff(h, e.x, s0.nd[e.n].v, "changed-between-operations")
       \cup (IF e.e \in {"SA", "SO", "REC"} THEN Diff(h, e.y, e.x, "changed-by-a-selection") ELSE {})
       \cup (IF e.e = "REC" THEN X("C13", "recommending-changed-the-node", e.y = e.x /\ e.x = s0.nd[e.n].v) ELSE {})
       \cup (IF e.e \in {"VD", "VC"} THEN UNION { UNION { X(id, "changed-by-a-visit", DEq(e.x[f], e.y[f])) : id \in ValueProp(h, f) } : f \in {3, 5, 7, 8, 10} } ELSE {})

(***************************************************************************)
(* C08: counters.  n is the node after the event.                           *)
(***************************************************************************)
Pseudo(h, n) == IF h.alg < 2 /\ n.dn /\ h.heur # 0 THEN h.pseudo ELSE 0
ExpNV(h, n) == Pseudo(h, n) + n.pass
ExpNB(h, n) == IF h.alg < 2 THEN Pseudo(h, n) + n.bk ELSE n.bk + (IF n.dn THEN n.lv ELSE 0)
DpBk(h, n)  == IF h.alg = 5 \/ (h.alg >= 6 /\ h.dp) THEN n.bk ELSE 0
ExpDP(h, n) == IF h.alg < 5 THEN 0 ELSE IF n.dn THEN 1 + n.lv + DpBk(h, n) ELSE DpBk(h, n)
ExpEN(h, n) == IF n.dn THEN 1 + n.lv + n.bk ELSE n.bk
ExpMN(h, n) == LET b == IF h.dp THEN 0 ELSE n.bk IN IF n.dn THEN 1 + b ELSE b
BadCounts(h, n, v) ==
  X("C08", "visits", v[1] = ExpNV(h, n)) \cup X("C08", "backups", v[2] = ExpNB(h, n))
  \cup (IF h.alg >= 5 THEN X("C08", "dp-backups", v[4] = ExpDP(h, n)) ELSE {})
  \cup (IF h.alg = 6 THEN X("C08", "entropy-backups", v[6] = ExpEN(h, n)) ELSE {})
  \cup (IF h.alg >= 6 THEN X("C08", "empirical-backups", v[9] = ExpMN(h, n)) ELSE {})

(***************************************************************************)
(* Values.  n is the node after the event e.                                *)
(***************************************************************************)
\* mean of k pseudo-values hv and the returns backed up
MeanOf(k, hv, n) == IF k + n.bk = 0 THEN hv ELSE DDiv(DAdd(DMul(DInt(k), hv), n.ret), DInt(k + n.bk))
MeanScale(hv, n) == DAdd(One, DAdd(DAbs(hv), IF n.bk = 0 THEN Zero ELSE DDiv(n.rabs, DInt(n.bk))))
HvOf(h, n) == IF n.dn THEN Heur(h, n.st) ELSE Zero
BadMean(h, n, v) ==
  IF h.alg < 2 THEN X("C11", "not-the-mean-return", DNearS(v[3], MeanOf(Pseudo(h, n), HvOf(h, n), n), 9, MeanScale(HvOf(h, n), n)))
  ELSE IF h.alg >= 6 /\ ~h.dp THEN
    X("C16", "not-the-empirical-mean", DNearS(v[10], MeanOf(IF n.dn THEN 1 ELSE 0, HvOf(h, n), n), 9, MeanScale(HvOf(h, n), n)))
  ELSE {}
KidNb(s0, k) == NB(s0.nd[k])
BadSoft(h, s0, n, e) ==
  IF ~h.coarse \/ h.alg \notin 2..5 \/ ~On("C14") THEN {}
  ELSE IF n.dn THEN
    LET pp == ParPol(s0, e, n) want == SoftValue(h, s0, n, pp, n.tq)
    IN X("C14", "soft-value", ~DFinite(want) \/ DNearS(VAL(n), want, 9, SoftScale(h, s0, n, n.tq)))
       \cup X("C14", "soft-value-not-finite", DFinite(want) => DFinite(VAL(n)))
  ELSE LET K == KidSet(s0, n) w(k) == NB(s0.nd[k]) x(k) == VAL(s0.nd[k])
           want == DAdd(LocalReward(h, n), WMean(K, w, x))
       IN X("C14", "chance-soft-value", DNearS(VAL(n), want, 10, DAdd(WScale(K, w, x), DAbs(LocalReward(h, n)))))
BadDp(h, s0, n, e) ==
  IF ~h.coarse \/ ~(h.alg = 5 \/ (h.alg >= 6 /\ h.dp)) \/ ~On("C16") THEN {}
  ELSE IF n.dn THEN
    LET K == SeqOf({ k \in KidSet(s0, n) : DPN(s0.nd[k]) > 0 })
        xs == Vec([j \in 1..Len(K) |-> Sg(h, n, DP(s0.nd[K[j]]))])
    IN X("C16", "not-the-best-action", Len(K) > 0 /\ DNearS(DP(n), Sg(h, n, DMaxSeq(xs)), 12, DP(n)))
  ELSE LET K == KidSet(s0, n) w(k) == DPN(s0.nd[k]) x(k) == DP(s0.nd[k])
           want == DAdd(LocalReward(h, n), WMean(K, w, x))
       IN X("C16", "not-the-expected-value", DNearS(DP(n), want, 10, DAdd(WScale(K, w, x), DAbs(LocalReward(h, n)))))
EntTol(h, s0, n) == DMul(DInt(100 * (1 + NA(h, n))), PolTol(h, s0, n))
Within(a, b, tol) == DLe(DAbs(DSub(a, b)), tol)
BadEnt(h, s0, n, e) ==
  IF h.alg # 6 \/ ~On("C17") THEN {} ELSE
  LET fin == X("C17", "not-finite", DFinite(n.v[7]) /\ DFinite(n.v[8]) /\ DFinite(n.v[3]))
      sv  == X("C17", "soft-value", DNearS(n.v[3], DAdd(Est(h, n), DMul(VTemp(h, n), SE(n))), 10, DAdd(One, DAdd(DAbs(Est(h, n)), DAbs(DMul(VTemp(h, n), SE(n)))))))
  IN fin \cup sv \cup
     (IF ~h.coarse THEN {}
      ELSE IF n.dn THEN
        LET p == Policy(h, s0, n, NoMap) H == Entropy(p) tol == EntTol(h, s0, n)
            ks == SeqOf({ k \in 1..NA(h, n) : HasC(n, Acts(h, n.st)[k]) })
            se(k) == SE(KidC(s0, n, Acts(h, n.st)[k]))
            want == DAdd(Sg(h, n, H), DSum(Vec([j \in 1..Len(ks) |-> DMul(p[ks[j]], se(ks[j]))])))
            big == DMaxSeq(<<One>> \o Vec([j \in 1..Len(ks) |-> DAbs(se(ks[j]))]))
        IN X("C17", "local-entropy", Within(n.v[8], H, tol)) \cup X("C17", "subtree-entropy", Within(n.v[7], want, DMul(tol, big)))
      ELSE LET K == KidSet(s0, n) w(k) == EN(s0.nd[k]) x(k) == SE(s0.nd[k])
           IN X("C17", "chance-entropy", DNearS(n.v[7], WMean(K, w, x), 10, WScale(K, w, x))))
BadTemps(h, n, tp) ==
  IF h.alg < 2 THEN {} ELSE
  (IF DIsNaN(tp[1]) \/ ~n.dn THEN {} ELSE X("C25", "search-temperature", DNearS(tp[1], Temp(h, n), 12, tp[1])))
  \cup (IF DIsNaN(tp[2]) \/ h.alg < 6 THEN {} ELSE X("C25", "value-temperature", DNearS(tp[2], VTemp(h, n), 12, tp[2])))

BadNumbers(h, s0, e) ==
  IF e.e \notin {"VD", "VC", "SA", "BD", "BC"} \/ ~Known(s0, e.n) THEN {} ELSE
  LET s1 == UpdT(h, s0, e) n == s1.nd[e.n] IN
  CASE e.e \in {"VD", "VC"} -> BadCounts(h, n, e.y)
    [] e.e = "SA" -> BadTemps(h, n, e.tp)
    [] OTHER -> BadCounts(h, n, e.y) \cup BadMean(h, n, e.y) \cup BadSoft(h, s1, n, e) \cup BadDp(h, s1, n, e) \cup BadEnt(h, s1, n, e) \cup BadTemps(h, n, e.tp)

(***************************************************************************)
(* Choices (C12, C13, C15).                                                  *)
(***************************************************************************)
\* near ties in the sparse-set condition: the set is not determined up to rounding
AmbigSparse(tq) ==
  \E k \in 1..Len(tq) :
     LET above == { j \in 1..Len(tq) : DLt(tq[k], tq[j]) \/ (DEq(tq[k], tq[j]) /\ j <= k) }
         sum == DSum(SeqOfVals(tq, above)) lhs == DAdd(One, DMul(DInt(Cardinality(above)), tq[k]))
     IN DNearS(sum, lhs, 9, DAdd(One, DMaxSeq(Vec([j \in 1..Len(tq) |-> DAbs(tq[j])]))))
PolicyFixed(h, n) == h.alg # 4 \/ ~AmbigSparse(n.tq)
Negl == DPow(DInt(10), DInt(-18))
BadChoice(h, s0, e) ==
  IF e.e # "SA" \/ ~Known(s0, e.n) \/ ~h.coarse THEN {} ELSE
  LET n == Before(s0, e) IN
  IF ~Valid(h, n.st, e.a) THEN X("C12", "invalid-action", h.alg >= 2) \cup X("C15", "invalid-action", h.alg < 2)
  ELSE IF h.alg < 2 THEN
    IF ~On("C12") \/ DLt(Zero, h.eps) THEN {} ELSE X("C12", "not-the-ucb-action", APos(h, n.st, e.a) \in UcbChoice(h, s0, n))
  ELSE IF ~On("C15") \/ ~PolicyFixed(h, n) THEN {} ELSE
    LET pp == ParPol(s0, e, n) p == Policy(h, s0, n, pp) m == NA(h, n) tol == PolTol(h, s0, n)
    IN X("C15", "impossible-action", DLt(Negl, PolicyRaw(h, s0, n, pp)[APos(h, n.st, e.a)]))
       \cup (IF e.pol = <<>> THEN {}
             ELSE X("C15", "policy", \A k \in 1..m : Within(e.pol[k], p[k], tol))
                  \cup X("C15", "policy-over-invalid-actions", e.pol[m + 1] = 0)
                  \cup X("C15", "not-a-distribution", (\A k \in 1..m : DLe(Zero, e.pol[k])) /\ DNear(DSum(SubSeq(e.pol, 1, m)), One, 9)))
BadRecommend(h, s0, e) ==
  IF e.e # "REC" \/ ~Known(s0, e.n) \/ ~On("C13") THEN {} ELSE
  LET n == s0.nd[e.n] best == RecSet(h, s0, n) IN
  X("C13", "not-a-valid-action", \A j \in 1..Len(e.rs) : Valid(h, n.st, e.rs[j]))
  \cup X("C13", "not-the-best-action", \A j \in 1..Len(e.rs) : Valid(h, n.st, e.rs[j]) => APos(h, n.st, e.rs[j]) \in best)
  \cup X("C13", "recommending-added-children", e.nc = Cardinality(DOMAIN n.ch))

(* frequencies of many draws at one node *)
FreqOk(N, c, p) ==
  IF ~DLt(Zero, p) THEN c = 0
  ELSE LET mean == DMul(DInt(N), p) sd == DSqrt(DMax(Zero, DMul(mean, DSub(One, p))))
       IN DLe(DAbs(DSub(DInt(c), mean)), DAdd(DMul(DInt(6), sd), DInt(3)))
Count(e, key) == LET S == { j \in 1..Len(e.cnt) : e.cnt[j][1] = key } IN IF S = {} THEN 0 ELSE e.cnt[CHOOSE j \in S : TRUE][2]
\* probability of position k when one of the set S is taken uniformly; inp: what each one's value is computed from
TieP(S, k) == IF k \in S THEN DRat(1, Cardinality(S)) ELSE Zero
SameInputs(S, inp(_)) == \A j, k \in S : inp(j) = inp(k)
BadFreq(h, s0, e) ==
  IF e.e # "FREQ" \/ ~Known(s0, e.n) THEN {} ELSE
  LET n == s0.nd[e.n] IN
  IF e.what = "obs" THEN
    IF ~(On("C19") \/ On("C10")) THEN {} ELSE
    LET os == OutSeq(h, n.st, n.a) pr == OutPr(h, n.st, n.a) IN
    X("C19", "outcome-frequencies", \A j \in 1..Len(os) : FreqOk(e.N, Count(e, os[j]), pr[j]))
    \cup X("C10", "impossible-outcomes", \A j \in 1..Len(e.cnt) : e.cnt[j][1] \in Outs(h, n.st, n.a))
  ELSE
  LET m == NA(h, n) as == Acts(h, n.st) cnt(k) == Count(e, as[k])
      known == \A j \in 1..Len(e.cnt) : Valid(h, n.st, e.cnt[j][1])
      init == [n EXCEPT !.ch = NoMap, !.v = n.v0]
  IN CASE e.what \in {"rec0", "rec"} ->
            IF ~(On("C13") \/ On("C19")) THEN {} ELSE
            LET nn == IF e.what = "rec0" THEN init ELSE n S == RecSet(h, s0, nn) inp(k) == RecInput(h, s0, nn, k)
                ok == known /\ (\A k \in 1..m : k \notin S => cnt(k) = 0)
                uni == SameInputs(S, inp) => \A k \in S : FreqOk(e.N, cnt(k), TieP(S, k))
            IN X("C13", "recommends-other-actions", ok) \cup X("C13", "ties-not-uniform", uni) \cup X("C19", "ties-not-uniform", uni)
       [] e.what \in {"first", "select"} /\ h.alg < 2 ->
            IF ~On("C12") THEN {} ELSE
            LET nn == IF e.what = "first" THEN [init EXCEPT !.v[1] = @ + 1] ELSE n
                pre == { e.pre[j] : j \in 1..Len(e.pre) }
                untried == IF e.what = "first" THEN { k \in 1..m : as[k] \notin pre } ELSE UntriedSet(h, nn)
                S == IF ~h.prior /\ untried # {} THEN untried ELSE ArgMax(Vec([k \in 1..m |-> Ucb(h, s0, nn, k)]))
                inp(k) == UcbInput(h, s0, nn, k)
                byrule == ~h.prior /\ untried # {}
                p(k) == DAdd(DMul(h.eps, DRat(1, m)), DMul(DSub(One, h.eps), TieP(S, k)))
                all == \A k \in 1..m : FreqOk(e.N, cnt(k), p(k))
                others == \A k \in 1..m \ S : FreqOk(e.N, cnt(k), p(k))
            IN X("C12", "choice-frequencies", known /\ (IF byrule \/ SameInputs(S, inp) THEN all ELSE others))
       [] e.what = "select" ->
            IF ~On("C15") \/ ~PolicyFixed(h, n) THEN {} ELSE
            LET p == Policy(h, s0, n, NoMap) IN X("C15", "action-frequencies", known /\ \A k \in 1..m : FreqOk(e.N, cnt(k), p[k]))
       [] OTHER -> {}

(***************************************************************************)
(* Structure (C10, C18, C09) and initial values.                            *)
(***************************************************************************)
BadNew(h, s0, e) ==
  CASE e.e = "NC" ->
         IF ~Known(s0, e.by) THEN X("C10", "unknown-parent", FALSE) ELSE
         LET p == s0.nd[e.by] IN
         X("C10", "chance-child-of-invalid-action", Valid(h, p.st, e.a)) \cup X("C10", "chance-child-action", e.a2 = e.a)
         \cup X("C10", "chance-child-position", e.s = p.st /\ e.d = p.dep /\ e.ts = p.ts /\ e.p = e.by)
         \cup X("C10", "child-created-twice", e.a \notin DOMAIN p.ch)
         \cup X("C18", "opponent-flag", e.opp = Opp(h, e.ts))
         \cup (IF h.alg >= 2 /\ Valid(h, p.st, e.a) THEN X("C14", "local-reward", DEq(e.lr, Env(h, p.st).r[APos(h, p.st, e.a)])) ELSE {})
         \cup X("C08", "initial-counts", e.y[1] = 0 /\ e.y[2] = 0 /\ e.y[4] = 0 /\ e.y[6] = 0 /\ e.y[9] = 0)
         \cup (IF h.alg \in 2..5 THEN X("C14", "initial-chance-value", DEq(e.y[3], h.dq)) ELSE {})
    [] e.e \in {"ND", "ROOT"} ->
         LET root == e.e = "ROOT" hv == Heur(h, e.s)
             n == NewNode(TRUE, e.s, -1, e.d, e.ts, 0, e.y)
         IN (IF root THEN X("C10", "root-position", e.s = e.ws /\ e.d = 0 /\ e.ts = e.wts)
             ELSE IF ~Known(s0, e.by) THEN X("C10", "unknown-parent", FALSE)
             ELSE LET p == s0.nd[e.by] IN
                  X("C10", "impossible-outcome", e.o \in Outs(h, p.st, p.a)) \cup X("C10", "outcome-state", e.s = e.o)
                  \cup X("C10", "decision-child-position", e.d = p.dep + 1 /\ e.ts = p.ts + 1 /\ e.p = e.by)
                  \cup X("C10", "child-created-twice", e.o \notin DOMAIN p.ch))
            \cup X("C10", "heuristic-value", DEq(e.hv, hv)) \cup X("C18", "opponent-flag", e.opp = Opp(h, e.ts))
            \cup X("C04", "leaf-flag", e.leaf = Leaf(h, e.s, e.d))
            \cup X("C08", "initial-counts", e.y[1] = Pseudo(h, n) /\ e.y[2] = Pseudo(h, n) /\ (h.alg >= 5 => e.y[4] = 1) /\ (h.alg = 6 => e.y[6] = 1) /\ (h.alg >= 6 => e.y[9] = 1))
            \cup (IF h.alg < 2 THEN X("C11", "initial-value", DEq(e.y[3], hv)) ELSE {})
            \cup (IF h.alg \in 2..5 THEN X("C14", "initial-value", DEq(e.y[3], hv)) ELSE {})
            \cup (IF h.alg >= 5 THEN X("C16", "initial-value", DEq(e.y[5], hv)) ELSE {})
            \cup (IF h.alg >= 6 THEN X("C16", "initial-value", DEq(e.y[10], hv)) ELSE {})
            \cup (IF h.alg = 6 /\ On("C17") THEN
                    X("C17", "not-finite", DFinite(e.y[7]) /\ DFinite(e.y[8]))
                    \cup (IF Leaf(h, e.s, e.d) \/ NA(h, n) = 0 THEN {}
                          ELSE LET H == Entropy(Policy(h, s0, n, NoMap)) tol == EntTol(h, s0, n)
                               IN X("C17", "initial-entropy", Within(e.y[8], H, tol) /\ Within(e.y[7], Sg(h, n, H), tol)))
                  ELSE {})
    [] OTHER -> {}
\* a node of another class than the algorithm's, or one that starts with other numbers than the one the search keeps
BadClass(h, s0, e) ==
  IF e.e \notin {"NC", "ND"} THEN {} ELSE
  LET ok == e.cls /\ e.same
      ids == {"C10"} \cup (IF h.alg < 2 THEN {"C11", "C12"} ELSE {"C14", "C15"}) \cup (IF h.alg >= 5 THEN {"C16"} ELSE {}) \cup (IF h.alg >= 6 THEN {"C17"} ELSE {})
  IN UNION { X(id, "wrong-kind-of-node", ok) : id \in ids }
ChMap(q) == [k \in { q[j][1] : j \in 1..Len(q) } |-> q[CHOOSE j \in 1..Len(q) : q[j][1] = k][2]]
ParOf(s0, n) == IF n.par # 0 /\ s0.nd[n.par].alive THEN n.par ELSE 0
BadSnap(h, s0, e) ==
  IF e.e # "SNAP" THEN {} ELSE
  LET ids == { e.nodes[j].n : j \in 1..Len(e.nodes) }
      known == \A j \in 1..Len(e.nodes) : Known(s0, e.nodes[j].n)
      struct(x) == LET n == s0.nd[x.n] IN n.dn = x.dn /\ n.st = x.s /\ n.dep = x.d /\ n.ts = x.ts /\ n.a = x.a /\ ParOf(s0, n) = x.p
      kids(x) == LET n == s0.nd[x.n] IN Len(x.ch) = x.nc /\ Cardinality(DOMAIN n.ch) = x.nc /\ ChMap(x.ch) = n.ch
      vals(x) == Diff(h, x.y, s0.nd[x.n].v, "changed-between-operations")
      A == 1..Len(e.nodes)
  IN X("C10", "nodes-of-the-tree", known /\ ids = ReachFrom(s0, {e.n}) /\ Cardinality(ids) = Len(e.nodes))
     \cup (IF e.kept THEN X("C28", "kept-subtree-changed", known /\ ids = ReachFrom(s0, {e.n}) /\ \A j \in A : struct(e.nodes[j]) /\ kids(e.nodes[j]) /\ e.nodes[j].y = s0.nd[e.nodes[j].n].v) ELSE {})
     \cup (IF ~known THEN {} ELSE
           X("C10", "node-changed-place", \A j \in A : struct(e.nodes[j])) \cup X("C10", "children", \A j \in A : kids(e.nodes[j]))
           \cup X("C09", "children", \A j \in A : kids(e.nodes[j]))
           \cup UNION { vals(e.nodes[j]) : j \in A }
           \cup X("C08", "visits", \A j \in A : e.nodes[j].nv = e.nodes[j].y[1] /\ e.nodes[j].nv = ExpNV(h, s0.nd[e.nodes[j].n]))
           \cup (IF e.again THEN
                   LET same == \A j \in A : kids(e.nodes[j]) /\ e.nodes[j].y = s0.nd[e.nodes[j].n].v
                   IN X("C13", "queries-changed-the-tree", same) \cup X("C26", "queries-changed-the-tree", same)
                 ELSE {}))
\* C28: after a release exactly the nodes under what is still held exist; after the last one nothing does
SetOf(q) == { q[j] : j \in 1..Len(q) }
BadLife(h, s0, e) ==
  CASE e.e = "DROP" -> LET want == ReachFrom(s0, SetOf(e.keep)) IN
         X("C28", "not-freed", SetOf(e.live) \subseteq want) \cup X("C28", "freed-while-held", want \subseteq SetOf(e.live))
    [] e.e = "FREE" -> X("C28", "nodes-left", e.live = <<>>) \cup X("C28", "manager-left", ~e.mgr) \cup X("C28", "environment-left", ~e.env)
    [] OTHER -> {}
BadLookup(h, s0, e) ==
  IF e.e # "LKP" \/ ~Known(s0, e.n) THEN {} ELSE
  LET ch == s0.nd[e.n].ch row(q) ==
        /\ (q[2] = 1) = (q[1] \in DOMAIN ch)
        /\ q[3] = IF q[1] \in DOMAIN ch THEN ch[q[1]] ELSE -1
        /\ q[1] \in DOMAIN ch => q[4] = ch[q[1]]
      ok == \A j \in 1..Len(e.rs) : row(e.rs[j])
  IN X("C10", "lookup", ok /\ ~e.bogus /\ ~e.grew) \cup X("C24", "lookup-by-equal-key", ok)
     \cup X("C09", "lookup", ok)

(***************************************************************************)
(* C26: printed trees.                                                      *)
(***************************************************************************)
ActStr(h, a) == IF h.atype = 1 THEN "act" \o ToString(a) ELSE ToString(a)
StStr(h, x) == CASE h.stype = 1 -> "(" \o ToString(x \div 3) \o "," \o ToString((x % 3) - 1) \o ")"
                 [] h.stype = 2 -> "(" \o ToString(x \div 4) \o "," \o ToString((x \div 2) % 2) \o "," \o ToString(x % 2) \o ")"
                 [] OTHER -> "(" \o ToString(x) \o ")"
ValStr(h, n) ==
  LET T == DStrG(Temp(h, n)) IN
  CASE h.alg < 2 -> DStrG(VAL(n))
    [] h.alg \in 2..4 -> DStrG(VAL(n)) \o (IF n.dn THEN "(temp:" \o T \o ")" ELSE "")
    [] h.alg = 5 -> DStrG(DP(n)) \o "(" \o (IF n.dn THEN "temp:" \o T \o "," ELSE "") \o "soft_val:" \o DStrG(VAL(n)) \o ")"
    [] h.alg = 6 -> DStrG(Est(h, n)) \o "(" \o (IF n.dn THEN "temp:" \o T \o "," ELSE "") \o "entrpy:" \o DStrG(SE(n))
                    \o ",val_temp:" \o DStrG(VTemp(h, n)) \o ",soft_val:" \o DStrG(VAL(n)) \o ")"
    [] OTHER -> DStrG(Est(h, n))
RECURSIVE Tabs(_)
Tabs(k) == IF k = 0 THEN "" ELSE "|\t" \o Tabs(k - 1)
Cut(n, depth) == n.dn /\ depth = 0
HeadLn(h, n, depth) ==
  (IF n.dn THEN "D" ELSE "C") \o "(vl=" \o ValStr(h, n) \o ",#v=" \o ToString(NV(n)) \o ")["
  \o (IF Cut(n, depth) THEN (IF Leaf(h, n.st, n.dep) THEN "" ELSE "...") \o "]," ELSE "")
Label(h, n, key) == IF n.dn THEN "\"" \o ActStr(h, key) \o "\"->" ELSE "{" \o StStr(h, key) \o "}->"
\* the line after the subtree of n printed from line pos, or 0 if it is not printed there (the first line is checked by the caller)
RECURSIVE After(_, _, _, _, _, _, _), Kids(_, _, _, _, _, _, _, _)
After(h, s0, ls, pos, n, depth, tabs) ==
  IF Cut(n, depth) THEN pos + 1
  ELSE LET q == Kids(h, s0, ls, pos + 1, n, DOMAIN n.ch, depth, tabs)
       IN IF q = 0 \/ q > Len(ls) THEN 0 ELSE IF ls[q] = Tabs(tabs) \o "]," THEN q + 1 ELSE 0
Kids(h, s0, ls, pos, n, rem, depth, tabs) ==
  IF rem = {} THEN pos
  ELSE IF pos > Len(ls) THEN 0
  ELSE LET here == { k \in rem : ls[pos] = Tabs(tabs + 1) \o Label(h, n, k) \o HeadLn(h, s0.nd[n.ch[k]], depth - 1) } IN
       IF here = {} THEN 0
       ELSE LET k == CHOOSE k \in here : TRUE
                q == After(h, s0, ls, pos, s0.nd[n.ch[k]], depth - 1, tabs + 1)
            IN IF q = 0 THEN 0 ELSE Kids(h, s0, ls, q, n, rem \ {k}, depth, tabs)
BadPrint(h, s0, e) ==
  IF e.e # "PP" \/ ~Known(s0, e.n) \/ ~On("C26") THEN {} ELSE
  LET n == s0.nd[e.n] d == IF n.dn THEN 2 * e.depth ELSE 2 * e.depth + 1 IN
  X("C26", "printed-tree", Len(e.s) > 0 /\ e.s[1] = HeadLn(h, n, d) /\ After(h, s0, e.s, 1, n, d, 0) = Len(e.s) + 1)
  \cup X("C26", "printing-changed-the-node", e.x = n.v)

BadAll(h, s0, e) ==
  BadWalk(h, s0, e) \cup BadRewards(h, s0, e) \cup BadCtx(h, s0, e) \cup BadShare(h, s0, e)
  \cup BadStored(h, s0, e) \cup BadNumbers(h, s0, e) \cup BadChoice(h, s0, e) \cup BadRecommend(h, s0, e) \cup BadFreq(h, s0, e)
  \cup BadNew(h, s0, e) \cup BadClass(h, s0, e) \cup BadSnap(h, s0, e) \cup BadLookup(h, s0, e) \cup BadPrint(h, s0, e)
  \cup BadLife(h, s0, e)
=============================================================================
