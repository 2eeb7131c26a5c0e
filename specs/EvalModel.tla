------------------------------ MODULE EvalModel -----------------------------
(* MCEvaluator::run_rollouts: threads over a static split of the roll-outs,  *)
(* each with a policy of its own that follows the tree, the results collected*)
(* under a lock; every interleaving, every outcome of the environment and    *)
(* every choice outside the tree.  The monitor of module Evaluate watches    *)
(* every step.  Variants other than "code" are mistakes the model exposes:   *)
(*   shared   the threads follow the tree with one policy between them       *)
(*   noreset  a thread's second roll-out starts where its first one ended    *)
(*   nolock   the results are appended without the lock                      *)
(*   length   the limit on the number of actions is checked too late         *)
(*   offtree  having left the tree, the policy asks the last node it was at  *)
EXTENDS Evaluate
CONSTANTS W, K, Calls, MaxLen, Variant
VARIABLES th, res, own, calls, s, bad
vars == <<th, res, own, calls, s, bad>>
\* 0 -a-> 0|1, 0 -b-> 2 ; 1 -a-> 1, 1 -b-> 0|2 ; 2 is a sink.  The tree: 1 (state 0) -a-> 2 (state 1), 3 (state 0); 3 -b-> 4 (state 2)
Env == <<[sink |-> FALSE, acts |-> <<0, 1>>, out |-> <<<<0, 1>>, <<2>>>>, r |-> <<DInt(1), DInt(5)>>, ro |-> <<<<>>, <<>>>>],
         [sink |-> FALSE, acts |-> <<0, 1>>, out |-> <<<<1>>, <<0, 2>>>>, r |-> <<DInt(2), DInt(-3)>>, ro |-> <<<<>>, <<DInt(1), DInt(7)>>>>],
         [sink |-> TRUE,  acts |-> <<>>, out |-> <<>>, r |-> <<>>, ro |-> <<>>]>>
H == [kind |-> "eval", root |-> 0, p |-> [eenv |-> Env, maxlen |-> MaxLen]]
Tree == (1 :> <<<<0, <<<<1, 2>>, <<0, 3>>>>>>>>) @@ (2 :> <<>>) @@ (3 :> <<<<1, <<<<2, 4>>>>>>>>) @@ (4 :> <<>>)
Rec == <<0, 1, 1, 0>>
TREE == [e |-> "TREE", t |-> 0, root |-> 1, nodes |-> [n \in 1..4 |-> [n |-> n, ch |-> Tree[n]]]]
RECURSIVE Feed(_, _, _)
Feed(m, b, es) == IF es = <<>> THEN <<m, b>> ELSE Feed(EvalUpd(H, m, Head(es)), b \cup EvalBad(H, m, Head(es)), Tail(es))
Emit(es) == LET r == Feed(s, bad, es) IN s' = r[1] /\ bad' = r[2]
Quiet == UNCHANGED <<s, bad>>
Fresh(k) == [pc |-> "next", i |-> k - 1, n |-> 1, x |-> 0, len |-> 0, ret |-> Zero, a |-> -1, tmp |-> <<>>]
Off == [k \in 1..W |-> [Fresh(k) EXCEPT !.pc = "off"]]
Init == /\ th = Off /\ res = <<>> /\ own = 0 /\ calls = 0 /\ LET r == Feed(VInit, {}, <<TREE>>) IN s = r[1] /\ bad = r[2]
Call == /\ calls < Calls /\ \A k \in 1..W : th[k].pc = "off" /\ ~(calls > 0 /\ s.want > 0)
        /\ calls' = calls + 1 /\ th' = [k \in 1..W |-> Fresh(k)] /\ Emit(<<[e |-> "EV", t |-> 0, k |-> K, th |-> W]>>) /\ UNCHANGED <<res, own>>
Return == /\ s.want > 0 /\ \A k \in 1..W : th[k].pc = "done"
          /\ th' = Off
          /\ LET e == [e |-> "EVR", t |-> 0, mean |-> IF res = <<>> THEN Zero ELSE Mean(res), sd |-> IF Len(res) < 2 THEN Zero ELSE DSqrt(Var(res))]
                 r == Feed(s, bad, <<e>>) IN s' = [r[1] EXCEPT !.want = 0, !.begun = 0] /\ bad' = r[2]
          /\ UNCHANGED <<res, own, calls>>
Set(k, r) == th' = [th EXCEPT ![k] = r]
Cur(k) == IF Variant = "shared" THEN th[1].n ELSE th[k].n
SetN(k, r, n) == IF Variant = "shared" THEN th' = [[th EXCEPT ![k] = r] EXCEPT ![1].n = n] ELSE Set(k, [r EXCEPT !.n = n])
Limit == IF Variant = "length" THEN MaxLen + 1 ELSE MaxLen
Step(k) ==
  LET r == th[k] IN
  CASE r.pc = "next" ->
         IF r.i >= K THEN Set(k, [r EXCEPT !.pc = "done"]) /\ Quiet /\ UNCHANGED <<res, own, calls>>
         ELSE /\ SetN(k, [r EXCEPT !.pc = "loop", !.i = @ + W, !.x = 0, !.len = 0, !.ret = Zero], IF Variant = "noreset" THEN r.n ELSE 1)
              /\ Emit(<<[e |-> "EC", t |-> k, c |-> k, s |-> 0]>>) /\ UNCHANGED <<res, own, calls>>
    [] r.pc = "loop" ->
         IF r.len >= Limit \/ Env[r.x + 1].sink THEN Set(k, [r EXCEPT !.pc = "lock"]) /\ Quiet /\ UNCHANGED <<res, own, calls>>
         ELSE IF Cur(k) # 0 THEN /\ Set(k, [r EXCEPT !.pc = "move", !.a = Rec[Cur(k)]]) /\ Emit(<<[e |-> "RC", t |-> k, n |-> Cur(k), c |-> k, a |-> Rec[Cur(k)]]>>)
                                 /\ UNCHANGED <<res, own, calls>>
         ELSE \E j \in DOMAIN Env[r.x + 1].acts : Set(k, [r EXCEPT !.pc = "move", !.a = Env[r.x + 1].acts[j]]) /\ Quiet /\ UNCHANGED <<res, own, calls>>
    [] r.pc = "move" ->
         LET p == EPos(H, r.x, r.a) IN
         IF p = 0 THEN Emit(<<[e |-> "ET", t |-> k, s |-> r.x, a |-> r.a, o |-> -1]>>) /\ UNCHANGED <<th, res, own, calls>>
         ELSE \E j \in DOMAIN Env[r.x + 1].out[p] :
           LET o == Env[r.x + 1].out[p][j] rw == Reward(H, r.x, r.a, o) f == Follow(Tree, Cur(k), r.a, o) IN
           /\ SetN(k, [r EXCEPT !.pc = "loop", !.x = o, !.len = @ + 1, !.ret = DAdd(@, rw)], IF Variant = "offtree" /\ f = 0 THEN Cur(k) ELSE f)
           /\ Emit(<<[e |-> "ET", t |-> k, s |-> r.x, a |-> r.a, o |-> o], [e |-> "ER", t |-> k, s |-> r.x, a |-> r.a, o |-> o]>>)
           /\ UNCHANGED <<res, own, calls>>
    [] r.pc = "lock" -> /\ (own = 0 \/ Variant = "nolock") /\ own' = k /\ Set(k, [r EXCEPT !.pc = "store", !.tmp = res]) /\ Quiet /\ UNCHANGED <<res, calls>>
    [] r.pc = "store" -> /\ res' = Append(r.tmp, r.ret) /\ own' = 0 /\ Set(k, [r EXCEPT !.pc = "next", !.tmp = <<>>]) /\ Quiet /\ UNCHANGED calls
    [] OTHER -> FALSE
Next == Call \/ Return \/ \E k \in 1..W : Step(k)
Spec == Init /\ [][Next]_vars
Clean == bad = {}
\* what the evaluation promises, stated on the model itself
Counted == (s.want = 0 /\ \A k \in 1..W : th[k].pc = "off") => Len(res) = K * calls
Bounded == \A k \in 1..W : th[k].len <= MaxLen
=============================================================================
