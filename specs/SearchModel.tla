----------------------------- MODULE SearchModel ----------------------------
(* src/thts.cpp's selection and backup phases, the node classes and the      *)
(* transposition table at the grain of their critical sections (one step per *)
(* locked operation on a node), for UCT's values, over every interleaving of *)
(* the workers, every choice among equally good actions and every outcome.   *)
(* Every step is observed by the monitor: `bad` collects the clauses of      *)
(* SearchRules it violates.  Variants other than "code" are mistakes the     *)
(* model must expose:                                                        *)
(*   racytable  look-up and insertion in the table are separate steps        *)
(*   lostmean   a backup's mean is updated by a read and a later write       *)
(*   stale      the table keeps entries across trees that were dropped       *)
EXTENDS SearchRules, Json
CONSTANTS W, Trials, World, TT, Mcts, Two, Variant, Rounds, KeepHist
AllOn(id) == TRUE
D(x) == DInt(x)
Sink(hv) == [sink |-> TRUE, h |-> D(hv), acts |-> <<>>, pri |-> <<>>, out |-> <<>>, pr |-> <<>>, r |-> <<>>, ro |-> <<>>]
St(hv, outs, rs, ros) ==
  [sink |-> FALSE, h |-> D(hv), acts |-> [k \in 1..Len(outs) |-> k - 1], pri |-> [k \in 1..Len(outs) |-> One], out |-> outs,
   pr |-> [k \in 1..Len(outs) |-> [j \in 1..Len(outs[k]) |-> DRat(1, Len(outs[k]))]], r |-> [k \in 1..Len(rs) |-> D(rs[k])], ro |-> ros]
Tab == CASE World = "diamond" ->   \* two actions that both may lead to state 1, then on to a sink
              <<St(2, <<<<1, 2>>, <<1>>>>, <<1, 3>>, <<<<>>, <<>>>>), St(5, <<<<3>>>>, <<-2>>, <<<<>>>>), Sink(9), Sink(9)>>
         [] World = "loop" ->      \* states recur at different times, outcome-dependent reward
              <<St(1, <<<<0, 1>>>>, <<1>>, <<<<D(0), D(4)>>>>), St(-1, <<<<0>>, <<2>>>>, <<2, 0>>, <<<<>>, <<>>>>), Sink(0)>>
         [] OTHER ->               \* a root that is a sink
              <<Sink(3)>>
h == [ env |-> Tab, alg |-> 0, mcts |-> Mcts, tt |-> TT, two |-> Two, maxd |-> 2, ts |-> 1, heur |-> 2, pseudo |-> 1, prior |-> FALSE, bias |-> D(-1), power |-> One,
       eps |-> Zero, rmv |-> FALSE, coarse |-> TRUE, dp |-> FALSE, thr |-> 0, kind |-> "model" ]

VARIABLES im,    \* the implementation: nodes [dn, st, a, dep, ts, ch, nv, nb, val], by id
          tab,   \* the transposition table
          wk,    \* workers: [pc, cur, cn, new, path, rw, k, half, tmp]
          root, begun, round,
          s, bad, hist
impl == <<im, tab, wk, root, begun, round>>
vars == <<im, tab, wk, root, begun, round, s, bad, hist>>
View == <<im, tab, wk, root, begun, round, s, bad>>

Y(n) == <<n.nv, n.nb, n.val, 0, Zero, 0, Zero, Zero, 0, Zero>>
NewIm(dn, st, a, dep, ts) == [dn |-> dn, st |-> st, a |-> a, dep |-> dep, ts |-> ts, ch |-> NoMap,
                              nv |-> IF dn THEN h.pseudo ELSE 0, nb |-> IF dn THEN h.pseudo ELSE 0, val |-> IF dn THEN Heur(h, st) ELSE Zero]
Rest == [pc |-> "idle", cur |-> 0, cn |-> 0, new |-> FALSE, path |-> <<>>, rw |-> <<>>, k |-> 0, half |-> "C", tmp |-> <<>>]
\* feeding a sequence of events to the monitor
RECURSIVE Feed(_, _, _)
Feed(m, b, es) == IF es = <<>> THEN <<m, b>> ELSE Feed(UpdT(h, m, Head(es)), b \cup BadAll(h, m, Head(es)), Tail(es))
Emit(es) == LET r == Feed(s, bad, es) IN s' = r[1] /\ bad' = r[2]
Quiet == UNCHANGED <<s, bad>>
H(x) == hist' = IF KeepHist THEN Append(hist, x) ELSE hist
NoNan == <<DSub(DInt(0), DInt(0)), DInt(0)>>
Born(n, id, by, o) == [e |-> "ND", t |-> 0, n |-> id, by |-> by, p |-> by, o |-> o, s |-> n.st, d |-> n.dep, ts |-> n.ts, cls |-> TRUE, same |-> TRUE,
                       hv |-> Heur(h, n.st), opp |-> Opp(h, n.ts), leaf |-> Leaf(h, n.st, n.dep), ws |-> -1, wts |-> -1, y |-> Y(n)]
Snap(r) == LET ids == SeqOf(ReachFrom(s, {r})) IN
  [e |-> "SNAP", t |-> 0, n |-> r, again |-> FALSE, kept |-> FALSE,
   nodes |-> [j \in 1..Len(ids) |-> LET n == im[ids[j]] ks == SeqOf(DOMAIN n.ch) IN
       [n |-> ids[j], dn |-> n.dn, s |-> n.st, d |-> n.dep, ts |-> n.ts, a |-> n.a, p |-> ParOf(s, s.nd[ids[j]]), nc |-> Cardinality(DOMAIN n.ch),
        ch |-> [i \in 1..Len(ks) |-> <<ks[i], n.ch[ks[i]]>>], y |-> Y(n), nv |-> n.nv]]]

RootEv(id, n) == [Born(n, id, 0, -1) EXCEPT !.e = "ROOT", !.ws = 0, !.wts = n.ts]
RunEv(r) == [e |-> "RUN", t |-> 0, n |-> r, k |-> Trials]
Init == /\ LET n == NewIm(TRUE, 0, -1, 0, h.ts) f == Feed(Init0, {}, <<RootEv(1, n), RunEv(1)>>)
           IN im = <<n>> /\ s = f[1] /\ bad = f[2]
        /\ tab = NoMap /\ wk = [w \in W |-> Rest] /\ root = 1 /\ begun = 0 /\ round = 1 /\ hist = <<>>

Set(w, r) == wk' = [wk EXCEPT ![w] = r]
Cid(w) == 100 * round + begun
Begin(w) ==
  /\ wk[w].pc = "idle" /\ begun < Trials
  /\ begun' = begun + 1
  /\ Set(w, [Rest EXCEPT !.pc = "D", !.cur = root, !.tmp = <<Cid(w)>>])
  /\ Emit(<<[e |-> "TB", t |-> w, c |-> Cid(w), s |-> im[root].st]>>)
  /\ UNCHANGED <<im, tab, root, round>> /\ H(<<"b", w>>)
E(k, w, n) == [e |-> k, t |-> w, n |-> n, c |-> wk[w].tmp[1]]
Stops(n, new) == Leaf(h, n.st, n.dep) \/ (h.mcts /\ new)
\* a decision node's critical section: visit, select, create the child
DStep(w) ==
  LET r == wk[w] id == r.cur n == im[id] n1 == [n EXCEPT !.nv = @ + 1]
      vd == E("VD", w, id) @@ [x |-> Y(n), y |-> Y(n1)]
  IN /\ r.pc = "D"
     /\ UNCHANGED <<tab, root, begun, round>>
     /\ IF Stops(n, r.new)
        THEN /\ im' = [im EXCEPT ![id] = n1] /\ Emit(<<vd>>)
             /\ Set(w, [r EXCEPT !.pc = "B", !.k = Len(r.path), !.rw = Append(@, Heur(h, n.st))]) /\ H(<<"d", w>>)
        ELSE \E k \in UcbChoice(h, Upd(h, s, vd), Upd(h, s, vd).nd[id]) :
             LET a == Acts(h, n.st)[k] new == a \notin DOMAIN n.ch cid == IF new THEN Len(im) + 1 ELSE n.ch[a]
                 c == NewIm(FALSE, n.st, a, n.dep, n.ts)
                 im1 == IF new THEN [Append(im, c) EXCEPT ![id] = [n1 EXCEPT !.ch = (a :> cid) @@ @]] ELSE [im EXCEPT ![id] = n1]
                 nc == [e |-> "NC", t |-> w, n |-> cid, by |-> id, p |-> id, a |-> a, a2 |-> a, s |-> c.st, d |-> c.dep, ts |-> c.ts, cls |-> TRUE, same |-> TRUE,
                        lr |-> Zero, opp |-> Opp(h, c.ts), y |-> Y(c)]
                 sa == E("SA", w, id) @@ [a |-> a, ch |-> cid, nc |-> Cardinality(DOMAIN im1[id].ch), x |-> Y(n1), y |-> Y(n1), pol |-> <<>>, tp |-> NoNan]
             IN /\ im' = im1 /\ Emit(<<vd>> \o (IF new THEN <<nc>> ELSE <<>>) \o <<sa>>)
                /\ Set(w, [r EXCEPT !.pc = "C", !.cn = cid]) /\ H(<<"d", w, a>>)
Key(n, o) == <<n.ts, o>>
\* a chance node's critical section: visit, sample, find or create the child; t0: what the table held when it was looked up
Outcome(w, o, found) ==
  LET r == wk[w] id == r.cn n == im[id] n1 == [n EXCEPT !.nv = @ + 1]
      have == o \in DOMAIN n.ch
      did == IF have THEN n.ch[o] ELSE IF found # 0 THEN found ELSE Len(im) + 1
      make == ~have /\ found = 0
      d == NewIm(TRUE, o, -1, n.dep + 1, n.ts + 1)
      im1 == LET i0 == [im EXCEPT ![id] = [n1 EXCEPT !.ch = (o :> did) @@ @]] IN IF make THEN Append(i0, d) ELSE i0
      vc == E("VC", w, id) @@ [x |-> Y(n), y |-> Y(n1)]
      so == E("SO", w, id) @@ [o |-> o, ch |-> did, nc |-> Cardinality(DOMAIN im1[id].ch), x |-> Y(n1), y |-> Y(n1)]
  IN /\ im' = im1 /\ tab' = IF TT /\ make THEN (Key(n, o) :> did) @@ tab ELSE tab
     /\ Emit(<<vc>> \o (IF make THEN <<[Born(d, did, id, o) EXCEPT !.t = w]>> ELSE <<>>) \o <<so>>)
     /\ Set(w, [r EXCEPT !.pc = "D", !.new = @ \/ ~have, !.cur = did, !.path = Append(@, <<r.cur, id>>), !.rw = Append(@, Reward(h, n.st, n.a, o)), !.tmp = <<r.tmp[1]>>])
Tabled(n, o) == IF TT /\ Key(n, o) \in DOMAIN tab THEN tab[Key(n, o)] ELSE 0
CStep(w) ==
  /\ wk[w].pc = "C" /\ Variant \notin {"racytable"}
  /\ \E o \in Outs(h, im[wk[w].cn].st, im[wk[w].cn].a) : Outcome(w, o, Tabled(im[wk[w].cn], o)) /\ H(<<"c", w, o>>)
  /\ UNCHANGED <<root, begun, round>>
\* racytable: the look-up and the rest of the operation (the chance node itself stays locked by this worker)
CLook(w) ==
  /\ wk[w].pc = "C" /\ Variant = "racytable" /\ \A v \in W : wk[v].pc = "C2" => wk[v].cn # wk[w].cn
  /\ \E o \in Outs(h, im[wk[w].cn].st, im[wk[w].cn].a) : Set(w, [wk[w] EXCEPT !.pc = "C2", !.tmp = <<@[1], o, Tabled(im[wk[w].cn], o)>>])
  /\ UNCHANGED <<im, tab, root, begun, round, hist>> /\ Quiet
CMake(w) == /\ wk[w].pc = "C2" /\ Outcome(w, wk[w].tmp[2], wk[w].tmp[3]) /\ UNCHANGED <<root, begun, round, hist>>
\* backups
Sum(q) == DSum(q)
RetSeq(r) == <<r.rw[Len(r.rw)]>> \o Rev(SubSeq(r.rw, r.k, Len(r.rw) - 1))
BackedUp(n, x) == [n EXCEPT !.nb = @ + 1, !.val = DAdd(@, DDiv(DSub(x, @), D(n.nb + 1)))]
BStep(w) ==
  LET r == wk[w] chance == r.half = "C" id == r.path[r.k][IF chance THEN 2 ELSE 1] n == im[id]
      ret == Sum(RetSeq(r)) n1 == BackedUp(n, ret)
      ev(x, y) == E(IF chance THEN "BC" ELSE "BD", w, id) @@ [rb |-> SubSeq(r.rw, 1, r.k - 1), ra |-> RetSeq(r), sa |-> ret, st |-> Sum(r.rw), x |-> Y(x), y |-> Y(y), tp |-> NoNan]
  IN /\ r.pc = "B" /\ r.k >= 1 /\ UNCHANGED <<tab, root, begun, round>>
     /\ IF Variant = "lostmean" /\ Len(r.tmp) = 1
        THEN /\ Set(w, [r EXCEPT !.tmp = <<@[1], n1>>]) /\ Quiet /\ UNCHANGED <<im, hist>>
        ELSE LET y == IF Variant = "lostmean" THEN [n EXCEPT !.nb = r.tmp[2].nb, !.val = r.tmp[2].val] ELSE n1 IN
             /\ im' = [im EXCEPT ![id] = y] /\ Emit(<<ev(n, y)>>)
             /\ Set(w, [r EXCEPT !.half = IF chance THEN "D" ELSE "C", !.k = IF chance THEN @ ELSE @ - 1, !.tmp = <<@[1]>>]) /\ H(<<"u", w>>)
End(w) == /\ wk[w].pc = "B" /\ wk[w].k = 0
          /\ Emit(<<[e |-> "TE", t |-> w, c |-> wk[w].tmp[1]]>>) /\ Set(w, Rest) /\ UNCHANGED <<im, tab, root, begun, round>> /\ H(<<"e", w>>)
AllIdle == \A w \in W : wk[w].pc = "idle"
\* a new tree with the same manager, after the old one has been dropped
Again == /\ AllIdle /\ begun = Trials /\ round < Rounds
         /\ LET n == NewIm(TRUE, 0, -1, 0, h.ts) id == Len(im) + 1 IN
            /\ im' = Append(im, n) /\ root' = id
            /\ tab' = IF Variant = "stale" THEN tab ELSE NoMap       \* the nodes are gone, so are the weak pointers to them
            /\ Emit(<<[e |-> "RUNR", t |-> 0], Snap(root), RootEv(id, n), [e |-> "DROP", t |-> 0, keep |-> <<id>>, live |-> <<id>>], RunEv(id)>>)
         /\ round' = round + 1 /\ begun' = 0 /\ UNCHANGED <<wk>> /\ H(<<"again">>)
Done == /\ AllIdle /\ begun = Trials /\ round = Rounds /\ Emit(<<[e |-> "RUNR", t |-> 0], Snap(root)>>)
        /\ round' = Rounds + 1 /\ UNCHANGED <<im, tab, wk, root, begun>>
        /\ IF KeepHist THEN PrintT("@@GEN " \o ToJson(hist)) /\ UNCHANGED hist ELSE UNCHANGED hist
Step(w) == Begin(w) \/ DStep(w) \/ CStep(w) \/ CLook(w) \/ CMake(w) \/ BStep(w) \/ End(w)
Next == Again \/ Done \/ \E w \in W : Step(w)
Spec == Init /\ [][Next]_vars /\ \A w \in W : WF_vars(Step(w))
Clean == bad = {}
(* C08 at quiescence: every passage is accounted for *)
RECURSIVE Total(_, _)
Total(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Total(S \ {x}, f)
Pass(id) == im[id].nv - (IF im[id].dn THEN h.pseudo ELSE 0)
PassF == [id \in 1..Len(im) |-> Pass(id)]
Conserved == (AllIdle /\ Variant = "code") => \A id \in ReachFrom(s, {root}) :
   LET n == im[id] kids == { n.ch[k] : k \in DOMAIN n.ch } IN
   IF n.dn THEN Pass(id) = s.nd[id].ends + Total(kids, PassF)
   ELSE ~TT => Pass(id) = Total(kids, PassF)
\* C09: with the table on, one node per (timestep, state) in the tree
OnePerKey == TT => \A a, b \in ReachFrom(s, {root}) : (im[a].dn /\ im[b].dn /\ im[a].ts = im[b].ts /\ im[a].st = im[b].st) => a = b
\* every trial ends (no step of one worker waits for another)
AllTrialsEnd == <>(round = Rounds + 1)
=============================================================================
