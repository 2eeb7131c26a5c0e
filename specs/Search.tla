------------------------------- MODULE Search -------------------------------
(* The tree search as its user can observe it: trials walking from the root  *)
(* through decision and chance nodes, backing up their own path, and the     *)
(* tree (or graph, with a transposition table) they build.                   *)
(*                                                                           *)
(* The state s is a record, h the description of the scenario (environment   *)
(* table and options).  For each observable event e, Bad...(h, s, e) is the  *)
(* set of violated clauses and Upd(h, s, e) the state after it.  The same    *)
(* operators are used by SearchModel (every interleaving of a small search,  *)
(* with the counters and the table as invariants) and by TraceSearch (traces *)
(* of the real code).  Numeric values are opaque here; see Algo.tla.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Dbl

Env(h, st)  == h.env[st + 1]
Acts(h, st) == Env(h, st).acts
Valid(h, st, a) == \E k \in 1..Len(Acts(h, st)) : Acts(h, st)[k] = a
APos(h, st, a)  == CHOOSE k \in 1..Len(Acts(h, st)) : Acts(h, st)[k] = a
OutSeq(h, st, a) == Env(h, st).out[APos(h, st, a)]
OutPr(h, st, a)  == Env(h, st).pr[APos(h, st, a)]
Outs(h, st, a) == IF ~Valid(h, st, a) THEN {}
                  ELSE { OutSeq(h, st, a)[j] : j \in { j \in 1..Len(OutSeq(h, st, a)) : DLt(Zero, OutPr(h, st, a)[j]) } }
Leaf(h, st, dep) == Env(h, st).sink \/ dep >= h.maxd
Opp(h, ts) == h.two /\ ts % 2 = 1
\* the reward of a transition: R(s,a), plus the part that depends on the outcome (if any)
Reward(h, st, a, o) ==
  LET k == APos(h, st, a) r == Env(h, st).r[k] ro == Env(h, st).ro[k] IN
  IF ro = <<>> THEN r ELSE DAdd(r, ro[CHOOSE j \in 1..Len(OutSeq(h, st, a)) : OutSeq(h, st, a)[j] = o])

NoMap == [x \in {} |-> 0]
IdleTrial == [pc |-> "idle", c |-> 0, cur |-> 0, cn |-> 0, new |-> FALSE, path |-> <<>>, rw |-> <<>>, k |-> 0, half |-> "C", mk |-> {}, pols |-> <<>>]
Init0 == [ nd |-> <<>>, tr |-> NoMap, tt |-> NoMap, root |-> 0, roots |-> {}, goal |-> 0, begun |-> 0, ended |-> 0, ctx |-> {}, run |-> FALSE ]
Tr(s, t) == IF t \in DOMAIN s.tr THEN s.tr[t] ELSE IdleTrial
SetTr(s, t, r) == [s EXCEPT !.tr = (t :> r) @@ @]
Node(s, n) == s.nd[n]
Known(s, n) == n \in 1..Len(s.nd)
Child(s, n, k) == IF k \in DOMAIN s.nd[n].ch THEN s.nd[n].ch[k] ELSE 0
Idle(s) == \A t \in DOMAIN s.tr : s.tr[t].pc = "idle"

NewNode(dn, st, a, dep, ts, par, v) ==
  [ dn |-> dn, st |-> st, a |-> a, dep |-> dep, ts |-> ts, par |-> par, ch |-> NoMap, alive |-> TRUE,
    pass |-> 0, ends |-> 0, bk |-> 0, lv |-> 0,         \* ghosts: passages, trials ended here, backups, visits as a leaf
    ret |-> Zero, rabs |-> Zero,                        \* ghosts: sum of the returns backed up here (and of their magnitudes)
    v0 |-> v, v |-> v, tq |-> <<>> ]

RECURSIVE ReachFrom(_, _)
ReachFrom(s, S) ==
  LET N == S \cup UNION { { s.nd[n].ch[k] : k \in DOMAIN s.nd[n].ch } : n \in S } IN
  IF N = S THEN S ELSE ReachFrom(s, N)

(***************************************************************************)
(* Updates.  They follow the observed event, whether or not it was allowed. *)
(***************************************************************************)
AddNode(s, n) == [s EXCEPT !.nd = Append(@, n)]
TTKey(s, c, o) == <<s.nd[c].ts, o>>
StopsAt(h, s, n, new) == Leaf(h, s.nd[n].st, s.nd[n].dep) \/ (h.mcts /\ new)

Upd(h, s, e) ==
  LET t == e.t r == Tr(s, t) IN
  CASE e.e = "ROOT" -> [AddNode(s, NewNode(TRUE, e.s, -1, e.d, e.ts, 0, e.y)) EXCEPT !.roots = @ \cup {e.n}]
    [] e.e = "NC" ->
         LET s1 == AddNode(s, NewNode(FALSE, e.s, e.a, e.d, e.ts, e.by, e.y))
             s2 == IF Known(s, e.by) THEN [s1 EXCEPT !.nd[e.by].ch = (e.a :> e.n) @@ @] ELSE s1
         IN SetTr(s2, t, [r EXCEPT !.mk = @ \cup {e.n}])
    [] e.e = "ND" ->
         LET s1 == AddNode(s, NewNode(TRUE, e.s, -1, e.d, e.ts, e.by, e.y))
             s2 == IF h.tt /\ Known(s, e.by) THEN [s1 EXCEPT !.tt = (TTKey(s, e.by, e.o) :> e.n) @@ @] ELSE s1
         IN SetTr(s2, t, [r EXCEPT !.mk = @ \cup {e.n}])
    [] e.e = "RUN" -> [s EXCEPT !.root = e.n, !.goal = e.k, !.begun = 0, !.ended = 0, !.run = TRUE]
    [] e.e = "RUNR" -> [s EXCEPT !.run = FALSE]
    [] e.e = "TB" -> SetTr([s EXCEPT !.begun = @ + 1, !.ctx = @ \cup {e.c}], t, [IdleTrial EXCEPT !.pc = "VD", !.c = e.c, !.cur = s.root])
    [] e.e = "TE" -> SetTr([s EXCEPT !.ended = @ + 1], t, IdleTrial)
    [] e.e = "VD" ->
         LET stop == StopsAt(h, s, e.n, r.new)
             s1 == [s EXCEPT !.nd[e.n] = [@ EXCEPT !.pass = @ + 1, !.v = e.y, !.ends = IF stop THEN @ + 1 ELSE @,
                                                   !.lv = IF Leaf(h, s.nd[e.n].st, s.nd[e.n].dep) THEN @ + 1 ELSE @]]
         IN SetTr(s1, t, [r EXCEPT !.cur = e.n, !.mk = {}, !.pc = IF stop THEN "B" ELSE "SA", !.k = Len(r.path), !.half = "C"])
    [] e.e = "SA" -> SetTr([s EXCEPT !.nd[e.n].v = e.y], t, [r EXCEPT !.cn = e.ch, !.pc = "VC", !.mk = {}, !.cur = e.n])
    [] e.e = "VC" -> SetTr([s EXCEPT !.nd[e.n].v = e.y, !.nd[e.n].pass = @ + 1], t, [r EXCEPT !.pc = "SO", !.cn = e.n])
    [] e.e = "SO" ->
         LET c == s.nd[e.n]
             new == e.o \notin DOMAIN c.ch
             s1 == [s EXCEPT !.nd[e.n].v = e.y, !.nd[e.n].ch = IF new THEN (e.o :> e.ch) @@ @ ELSE @]
         IN SetTr(s1, t, [r EXCEPT !.pc = "VD", !.new = @ \/ new, !.cur = e.ch, !.mk = {},
                                   !.path = Append(@, <<r.cur, e.n, c.a, e.o>>),
                                   !.rw = Append(@, IF e.o \in Outs(h, c.st, c.a) THEN Reward(h, c.st, c.a, e.o) ELSE Zero)])
    [] e.e \in {"BC", "BD"} ->
         LET s1 == [s EXCEPT !.nd[e.n] = [@ EXCEPT !.v = e.y, !.bk = @ + 1, !.ret = DAdd(@, e.sa), !.rabs = DAdd(@, DAbs(e.sa))]]
         IN SetTr(s1, t, [r EXCEPT !.half = IF e.e = "BC" THEN "D" ELSE "C", !.k = IF e.e = "BD" THEN @ - 1 ELSE @])
    [] e.e = "DROP" ->
         LET keep == { e.keep[i] : i \in 1..Len(e.keep) }
             live == ReachFrom(s, keep)
         IN [s EXCEPT !.nd = [n \in 1..Len(s.nd) |-> IF n \in live THEN s.nd[n] ELSE [s.nd[n] EXCEPT !.alive = FALSE]],
                      !.roots = keep,
                      !.tt = [key \in { key \in DOMAIN s.tt : s.tt[key] \in live } |-> s.tt[key]]]
    [] OTHER -> s

(***************************************************************************)
(* Clauses.  X(id, name, ok): clause `name' of property id holds iff ok.    *)
(***************************************************************************)
CONSTANT On(_)            \* which properties are being decided
X(id, name, ok) == IF ~On(id) THEN {} ELSE IF ok THEN {} ELSE { id \o ":" \o name }

\* C04: the walk.  C05: the order of the backups.
BadWalk(h, s, e) ==
  LET t == e.t r == Tr(s, t) k == e.e IN
  CASE k = "TB" -> X("C04", "starts-while-running", r.pc = "idle" /\ s.run) \cup X("C04", "starts-at-root", e.s = s.nd[s.root].st)
    [] k = "VD" -> X("C04", "visits-out-of-turn", r.pc = "VD") \cup X("C04", "visits-another-node", e.n = r.cur)
    [] k = "SA" -> X("C04", "selects-out-of-turn", r.pc = "SA" /\ e.n = r.cur)
                   \cup X("C04", "invalid-action", Valid(h, s.nd[e.n].st, e.a))
                   \cup X("C04", "no-matching-chance-node", e.ch # 0 /\ e.ch = Child(s, e.n, e.a))
    [] k = "VC" -> X("C04", "chance-visit-out-of-turn", r.pc = "VC" /\ e.n = r.cn)
    [] k = "SO" -> X("C04", "outcome-out-of-turn", r.pc = "SO" /\ e.n = r.cn)
                   \cup X("C04", "impossible-outcome", e.o \in Outs(h, s.nd[e.n].st, s.nd[e.n].a))
                   \cup X("C04", "wrong-decision-node", Known(s, e.ch) /\ s.nd[e.ch].st = e.o /\ s.nd[e.ch].dn
                                                        /\ (e.o \in DOMAIN s.nd[e.n].ch => e.ch = s.nd[e.n].ch[e.o]))
    [] k \in {"BC", "BD"} -> X("C04", "stops-too-early", r.pc = "B" \/ r.pc = "idle")
                   \cup X("C05", "backup-outside-backup-phase", r.pc = "B")
                   \cup X("C05", "backup-off-path", r.pc = "B" => r.k >= 1 /\ e.n = r.path[r.k][IF k = "BC" THEN 2 ELSE 1])
                   \cup X("C05", "chance-before-decision", r.pc = "B" => r.half = (IF k = "BC" THEN "C" ELSE "D"))
    [] k = "TE" -> X("C04", "trial-ended-early", r.pc = "B") \cup X("C05", "path-not-backed-up", r.pc = "B" /\ r.k = 0)
    [] k = "RUNR" -> X("C04", "trials-not-finished", Idle(s)) \cup X("C04", "trial-count", s.begun = s.ended)
                     \cup X("C08", "trial-count", s.ended = s.goal)
    [] OTHER -> {}

\* C05: the rewards handed to the backups
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
HeurOf(h, s, n) == IF h.heur # 2 \/ Env(h, s.nd[n].st).sink THEN Zero ELSE Env(h, s.nd[n].st).h
BadRewards(h, s, e) ==
  IF e.e \notin {"BC", "BD"} THEN {} ELSE
  LET r == Tr(s, e.t) IN
  IF r.pc # "B" \/ r.k < 1 \/ ~On("C05") THEN {} ELSE
  LET before == SubSeq(r.rw, 1, r.k - 1)
      hv     == HeurOf(h, s, r.cur)
      after  == <<hv>> \o Rev(SubSeq(r.rw, r.k, Len(r.rw)))
      sc     == DAdd(One, DAdd(DSumAbs(before), DSumAbs(after)))
  IN X("C05", "rewards-before", Len(e.rb) = Len(before) /\ \A i \in 1..Len(before) : DNear(e.rb[i], before[i], 12))
     \cup X("C05", "rewards-after", Len(e.ra) = Len(after) /\ \A i \in 1..Len(after) : DNear(e.ra[i], after[i], 12))
     \cup X("C05", "return-after", DNearS(e.sa, DSum(after), 11, sc))
     \cup X("C05", "total-return", DNearS(e.st, DAdd(DSum(before), DSum(after)), 11, sc))

\* C23: every operation of a trial gets that trial's own context
BadCtx(h, s, e) ==
  LET r == Tr(s, e.t) IN
  CASE e.e = "TB" -> X("C23", "context-reused", e.c \notin s.ctx)
    [] e.e \in {"VD", "SA", "VC", "SO", "BC", "BD", "TE"} -> X("C23", "context-of-another-trial", r.pc # "idle" => e.c = r.c)
    [] OTHER -> {}

\* C09: sharing
BadShare(h, s, e) ==
  CASE e.e = "ND" ->
         IF ~h.tt THEN {}
         ELSE X("C09", "second-node-for-one-outcome", Known(s, e.by) => TTKey(s, e.by, e.o) \notin DOMAIN s.tt)
    [] e.e = "SO" ->
         LET c == s.nd[e.n] r == Tr(s, e.t) IN
         IF e.o \in DOMAIN c.ch THEN X("C09", "child-changed", e.ch = c.ch[e.o])
         ELSE IF h.tt THEN X("C09", "not-the-tabled-node", LET key == TTKey(s, e.n, e.o) IN key \in DOMAIN s.tt /\ s.tt[key] = e.ch)
                           \cup X("C09", "shares-across-outcomes", Known(s, e.ch) => s.nd[e.ch].st = e.o /\ s.nd[e.ch].ts = c.ts + 1)
                           \cup X("C09", "dead-node", Known(s, e.ch) => s.nd[e.ch].alive)
         ELSE X("C09", "shared-without-table", e.ch \in r.mk)
    [] e.e = "TBL" -> X("C09", "fails-on-dead-nodes", e.ok)
    [] OTHER -> {}
=============================================================================
