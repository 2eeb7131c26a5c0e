------------------------------ MODULE Evaluate ------------------------------
(* Monte-Carlo evaluation.  Each evaluating thread is a state machine: a     *)
(* roll-out starts in the initial state at the root of the tree (EC); at a   *)
(* node of the tree the node is asked for its recommendation (RC), outside   *)
(* of it any valid action is taken; the environment moves on (ET) and the    *)
(* tree is followed along (action, observation) while it reaches; the        *)
(* roll-out ends at a sink state or after maxlen actions.                    *)
EXTENDS Dbl, FiniteSets, TLC
VC(c, name) == IF c THEN {} ELSE {"C21:" \o name}
Idle == [on |-> FALSE, c |-> 0, s |-> 0, n |-> 0, len |-> 0, ret |-> Zero, abs |-> Zero, rec |-> -1, tr |-> <<>>]
VInit == [th |-> <<>>, tree |-> <<>>, root |-> 0, want |-> 0, begun |-> 0, ctxs |-> {}, rets |-> <<>>, sumabs |-> Zero, cnt |-> <<>>]
Put2(f, k, v) == (k :> v) @@ f
Th(s, t)    == IF t \in DOMAIN s.th THEN s.th[t] ELSE Idle
ESt(h, x)   == h.p.eenv[x + 1]
EPos(h, x, a) == LET A == ESt(h, x).acts K == { k \in DOMAIN A : A[k] = a } IN IF K = {} THEN 0 ELSE CHOOSE k \in K : TRUE
Over(h, r)  == ESt(h, r.s).sink \/ r.len >= h.p.maxlen
\* the node reached from n by action a and observation o (0: none)
Follow(tree, n, a, o) ==
  IF n \notin DOMAIN tree THEN 0
  ELSE LET C == { k \in DOMAIN tree[n] : tree[n][k][1] = a } IN
       IF C = {} THEN 0
       ELSE LET q == tree[n][CHOOSE k \in C : TRUE][2] D == { k \in DOMAIN q : q[k][1] = o } IN
            IF D = {} THEN 0 ELSE q[CHOOSE k \in D : TRUE][2]
Reward(h, x, a, o) ==
  LET st == ESt(h, x) k == EPos(h, x, a) IN
  IF k = 0 THEN Zero
  ELSE LET K == { j \in DOMAIN st.out[k] : st.out[k][j] = o } IN
       IF st.ro[k] = <<>> \/ K = {} THEN st.r[k] ELSE DAdd(st.r[k], st.ro[k][CHOOSE j \in K : \A i \in K : j <= i])
Finished(h, s, t) == ~Th(s, t).on \/ Over(h, Th(s, t))
\* close the roll-out of thread t: its return is added to the returns sampled so far
Close(s, t) == LET r == Th(s, t) IN
  IF ~r.on THEN s ELSE [s EXCEPT !.rets = Append(@, r.ret), !.sumabs = DAdd(@, r.abs), !.th = Put2(@, t, Idle)]
RECURSIVE CloseAll(_, _)
CloseAll(s, T) == IF T = {} THEN s ELSE LET t == CHOOSE t \in T : TRUE IN CloseAll(Close(s, t), T \ {t})
Mean(rs) == DDiv(DSum(rs), DInt(Len(rs)))
Var(rs)  == LET m == Mean(rs) IN DDiv(DSum([k \in DOMAIN rs |-> DMul(DSub(rs[k], m), DSub(rs[k], m))]), DInt(Len(rs) - 1))
\* uniformly random actions outside the tree: counts per state and action, judged at the end (6 standard deviations)
Count(s, x, a) == IF <<x, a>> \in DOMAIN s.cnt THEN s.cnt[<<x, a>>] ELSE 0
FreqBad(h, s) ==
  UNION { LET A == ESt(h, x).acts n == LET f[k \in 0..Len(A)] == IF k = 0 THEN 0 ELSE f[k - 1] + Count(s, x, A[k]) IN f[Len(A)] IN
          IF n < 300 \/ Len(A) < 2 THEN {}
          ELSE LET p == DRat(1, Len(A)) sd == DSqrt(DMul(DInt(n), DMul(p, DSub(One, p)))) IN
               VC(\A k \in DOMAIN A : DLe(DAbs(DSub(DInt(Count(s, x, A[k])), DMul(DInt(n), p))), DAdd(DMul(DInt(6), sd), One)), "not-uniform-outside-the-tree")
        : x \in 0..(Len(h.p.eenv) - 1) }

EvalBad(h, s, e) ==
  LET r == Th(s, e.t) IN
  CASE e.e = "EC" ->
         VC(s.begun < s.want,                              "more-roll-outs-than-asked")
    \cup VC(e.s = h.root,                                  "does-not-start-in-the-initial-state")
    \cup VC(Finished(h, s, e.t),                           "roll-out-cut-short")
    [] e.e = "RC" ->
         VC(r.on /\ ~Over(h, r),                           "roll-out-goes-on-too-long")
    \cup VC(r.on => e.n = r.n,                             "asks-another-node-than-the-current-one")
    \cup VC(r.on => e.c = r.c,                             "another-roll-out's-context")
    [] e.e = "ET" ->
         VC(r.on /\ ~Over(h, r),                           "roll-out-goes-on-too-long")
    \cup (IF ~r.on THEN {} ELSE
            VC(e.s = r.s,                                  "leaves-another-state-than-the-current-one")
       \cup VC(EPos(h, e.s, e.a) > 0,                      "invalid-action")
       \cup VC(r.n # 0 => r.rec = e.a,                     "not-the-recommended-action"))
    [] e.e = "ER" -> VC(r.on /\ r.tr = <<e.s, e.a, e.o>>,  "reward-of-another-transition")
    [] e.e = "EVR" ->
         LET s1 == CloseAll(s, DOMAIN s.th) n == Len(s1.rets) sc == DAdd(One, IF n = 0 THEN Zero ELSE DDiv(s1.sumabs, DInt(n))) IN
         VC(s.begun = s.want,                              "fewer-roll-outs-than-asked")
    \cup VC(\A t \in DOMAIN s.th : Finished(h, s, t),      "roll-out-cut-short")
    \cup (IF n = 0 THEN {} ELSE VC(DNearS(e.mean, Mean(s1.rets), 9, sc), "mean"))
    \cup (IF n < 2 THEN {} ELSE VC(DNearS(e.sd, DSqrt(Var(s1.rets)), 7, sc), "standard-deviation"))
    [] e.e = "END" -> IF h.kind = "evalfreq" THEN FreqBad(h, s) ELSE {}
    [] e.e \in {"Crash", "Stuck", "Hang", "Livelock", "BadUnlock"} -> {"C21:" \o e.e}
    [] OTHER -> {}
EvalUpd(h, s, e) ==
  CASE e.e = "TREE" -> [s EXCEPT !.root = e.root, !.tree = [n \in { e.nodes[k].n : k \in DOMAIN e.nodes } |->
                                                              e.nodes[CHOOSE k \in DOMAIN e.nodes : e.nodes[k].n = n].ch]]
    [] e.e = "EV" -> [s EXCEPT !.want = e.k, !.begun = 0]
    [] e.e = "EC" -> LET s1 == Close(s, e.t) IN
         [s1 EXCEPT !.begun = @ + 1, !.th = Put2(@, e.t, [Idle EXCEPT !.on = TRUE, !.c = e.c, !.s = e.s, !.n = s.root])]
    [] e.e = "RC" -> IF Th(s, e.t).on THEN [s EXCEPT !.th[e.t].rec = e.a] ELSE s
    [] e.e = "ET" ->
         LET r == Th(s, e.t) IN
         IF ~r.on \/ e.o < 0 THEN s
         ELSE LET rw == Reward(h, e.s, e.a, e.o)
                  s1 == [s EXCEPT !.th[e.t] = [r EXCEPT !.s = e.o, !.n = Follow(s.tree, r.n, e.a, e.o), !.len = @ + 1,
                                                        !.ret = DAdd(@, rw), !.abs = DAdd(@, DAbs(rw)), !.rec = -1, !.tr = <<e.s, e.a, e.o>>]]
              IN IF r.n = 0 /\ h.kind = "evalfreq" THEN [s1 EXCEPT !.cnt = Put2(@, <<e.s, e.a>>, Count(s, e.s, e.a) + 1)] ELSE s1
    [] e.e = "EVR" -> CloseAll(s, DOMAIN s.th)
    [] OTHER -> s
=============================================================================
