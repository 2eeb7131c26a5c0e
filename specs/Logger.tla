------------------------------- MODULE Logger -------------------------------
(* The search log.  Time is counted in ticks (1/8 s of the virtual clock).   *)
(*                                                                           *)
(* A logger gains an entry when a completed trial makes                      *)
(*   completed - lastLog >= delta   (then lastLog := completed), or          *)
(*   total run time      >= thr     (then thr := thr + dt).                  *)
(* Total run time = run time of earlier runs (each from its start to its     *)
(* last completed trial) + time since the start of this run.  Completions    *)
(* are ordered by the logging lock: LK/LR are its acquisition and release.   *)
(* Where the clock may have moved meanwhile, instants are intervals and thr  *)
(* is a set of possible thresholds.                                          *)
EXTENDS Dbl, FiniteSets, TLC
Never == 1000000000
GC(c, name) == IF c THEN {} ELSE {"C22:" \o name}
NewLog(e) == [size |-> 0, delta |-> IF e.delta > 0 THEN e.delta ELSE Never, dt |-> e.dt, completed |-> 0, lastLog |-> 0,
              thrs |-> {IF e.dt > 0 THEN e.dt ELSE Never}, prior |-> <<0, 0>>, start |-> <<0, 0>>, last |-> <<0, 0>>, ran |-> FALSE,
              entries |-> <<>>, root |-> 0]
LInit == [ls |-> <<>>, use |-> 0, node |-> 0, seen |-> FALSE, roots |-> <<>>, w |-> 1,
          cs |-> [on |-> FALSE, t |-> -1, tm |-> 0, kind |-> "none", logged |-> FALSE], busy |-> {}, running |-> FALSE, n |-> 0]
\* roots: <<node, record>> pairs
RootRec(s, n) == LET K == { k \in DOMAIN s.roots : s.roots[k].n = n } IN s.roots[CHOOSE k \in K : TRUE]
KnownRoot(s, n) == \E k \in DOMAIN s.roots : s.roots[k].n = n
CurLog(s) == s.ls[s.use]
Lo(l, t) == l.prior[1] + t - l.start[2]
Hi(l, t) == l.prior[2] + t - l.start[1]

\* does the completion that began at tick a and ended at tick b leave a possible state, given whether an entry was made
After(l, a, b, logged) ==
  LET due == l.completed + 1 - l.lastLog >= l.delta IN
       { x \in l.thrs : Lo(l, a) < x /\ logged = due }
  \cup (IF logged THEN { x + l.dt : x \in { y \in l.thrs : y < Never /\ Hi(l, b) >= y } } ELSE {})
EntryBad(s, l, e) ==
  LET en == e.en lastE == IF l.entries = <<>> THEN <<>> ELSE l.entries[Len(l.entries)] IN
       GC(en[3] = e.x[1],                                                     "visits-are-not-the-root's")
  \cup GC(en[7] # 0 => en[4] = e.x[2] /\ DEq(en[5], e.x[3]),                  "statistics-are-not-the-root's")
  \cup GC(en[7] = 3 => DEq(en[6], e.x[4]),                                    "dp-value-is-not-the-root's")
  \cup GC(en[1] >= 0,                                                         "run-time")
  \cup GC(lastE # <<>> => en[1] >= lastE[1],                                  "run-time-decreases")
  \cup GC(lastE # <<>> /\ l.root = s.node => en[3] >= lastE[3],               "visits-decrease")
LogBad(s, e) ==
  IF s.use = 0 \/ e.l # s.use THEN {"C22:entry-in-a-logger-not-in-use"}
  ELSE LET l == CurLog(s) r == RootRec(s, s.node) IN
       EntryBad(s, l, e)
  \cup GC(e.n = s.node,                                                       "entry-of-another-root")
  \cup GC(e.t \in s.busy,                                                     "entry-outside-a-trial")
  \cup GC(e.before = l.size /\ e.size = l.size + 1,                           "entry-lost-or-duplicated")
  \cup (IF ~s.seen THEN {} ELSE
         GC(s.cs.on /\ s.cs.t = e.t /\ ~s.cs.logged,                          "two-entries-for-one-trial")
    \cup GC(s.cs.on => e.en[1] >= Lo(l, s.cs.tm) /\ e.en[1] <= Hi(l, e.tm),   "run-time")
    \cup GC(LET d == e.en[3] - r.nv - r.done IN d >= 1 /\ d <= s.w,           "visits-do-not-match-completed-trials")
    \cup GC(e.en[7] # 0 /\ ~r.leaf => LET d == e.en[4] - r.nb - r.done IN d >= 1 /\ d <= s.w, "backups-do-not-match-completed-trials"))
Zeros(en) == en[1] = 0 /\ en[3] = 0 /\ en[4] = 0 /\ DEq(en[5], Zero) /\ DEq(en[6], Zero)

\* the text written: one header, one row per entry, the columns of the logger's kind
Columns(k) == CASE k = 0 -> "runtime,num_visits" [] k = 1 -> "runtime,num_visits,num_backups,avg_return"
                [] k = 2 -> "runtime,num_visits,num_backups,soft_value" [] k = 3 -> "runtime,num_visits,num_backups,soft_value,dp_value"
Row(en) == DStrG(en[2]) \o "," \o ToString(en[3]) \o (IF en[7] = 0 THEN "" ELSE "," \o ToString(en[4]) \o "," \o DStrG(en[5]))
           \o (IF en[7] = 3 THEN "," \o DStrG(en[6]) ELSE "")
CsvBad(h, s, e) ==
  LET l == s.ls[e.l] IN
       GC(e.es = l.entries,                                                   "entries-changed-afterwards")
  \cup (IF l.entries = <<>> THEN {} ELSE
        GC(Len(e.ls) = Len(l.entries) + 1,                                    "not-one-header-and-one-row-per-entry")
   \cup GC(\A k \in DOMAIN l.entries : l.entries[k][7] = h.p.lk,              "entry-of-another-kind")
   \cup GC(e.ls # <<>> /\ e.ls[1] = Columns(h.p.lk),                          "header")
   \cup GC(\A k \in DOMAIN l.entries : k + 1 <= Len(e.ls) => e.ls[k + 1] = Row(l.entries[k]), "row"))

LoggerBad(h, s, e) ==
  CASE e.e = "ORG" -> GC(s.running /\ e.l = s.use,  "zero-entry-misplaced")
                 \cup (IF s.use = 0 THEN {} ELSE GC(CurLog(s).size = 0 /\ e.size = 1, "zero-entry-repeated") \cup GC(Zeros(e.en), "zero-entry-not-zero"))
    [] e.e = "LOG" -> LogBad(s, e)
    [] e.e = "LR"  -> IF ~s.cs.on \/ s.cs.t # e.t \/ s.use = 0 THEN {}
                      ELSE IF s.cs.kind = "trial" THEN
                             LET ok == After(CurLog(s), s.cs.tm, e.tm, s.cs.logged) # {} IN
                             IF ok THEN {} ELSE {IF s.cs.logged THEN "C22:entry-off-schedule" ELSE "C22:entry-missing"}
                           ELSE GC(CurLog(s).size > 0, "no-zero-entry")
    [] e.e = "RUNR" -> (IF s.use = 0 THEN {} ELSE
                          GC(e.size = CurLog(s).size, "entry-lost-or-duplicated") \cup GC(CurLog(s).size > 0, "no-zero-entry")
                          \cup (IF s.seen THEN {} ELSE
                                LET l == CurLog(s) IN GC(l.delta < Never /\ l.dt = 0 /\ s.w = 1 => l.size - 1 >= s.n \div l.delta, "entry-missing")))
                       \cup GC(s.seen /\ s.use # 0 => s.busy = {}, "trial-not-counted")
    [] e.e = "CSV" -> CsvBad(h, s, e)
    [] e.e \in {"Crash", "Stuck", "Hang", "Livelock", "BadUnlock"} -> {"C22:" \o e.e}
    [] OTHER -> {}

SetLog(s, l) == [s EXCEPT !.ls[s.use] = l]
LoggerUpd(s, e) ==
  CASE e.e = "NEWL" -> [s EXCEPT !.ls = Append(@, NewLog(e))]
    [] e.e = "ROOT" -> [s EXCEPT !.roots = Append(@, [n |-> e.n, nv |-> e.nv, nb |-> e.nb, leaf |-> e.leaf, done |-> 0])]
    [] e.e = "USE"  -> [s EXCEPT !.use = e.l, !.node = e.n, !.seen = e.seen, !.w = IF e.w > 0 THEN e.w ELSE @]
    [] e.e = "SETD" -> [s EXCEPT !.ls[e.l].delta = e.delta]
    [] e.e = "RUN"  -> [s EXCEPT !.running = TRUE, !.busy = {}]
    [] e.e = "RUNR" -> [s EXCEPT !.running = FALSE]
    [] e.e = "TB"   -> [s EXCEPT !.busy = @ \cup {e.t}, !.n = @ + 1]
    [] e.e = "ORG"  -> IF s.use = 0 THEN s ELSE [s EXCEPT !.ls[s.use].size = 1, !.ls[s.use].entries = <<e.en>>]
    [] e.e = "LK"   -> [s EXCEPT !.cs = [on |-> TRUE, t |-> e.t, tm |-> e.tm, kind |-> IF e.t \in s.busy THEN "trial" ELSE IF e.t = 0 /\ s.running THEN "run" ELSE "other", logged |-> FALSE]]
    [] e.e = "LOG"  -> IF s.use = 0 \/ e.l # s.use THEN s
                       ELSE [s EXCEPT !.cs.logged = TRUE, !.ls[s.use].size = @ + 1, !.ls[s.use].entries = Append(@, e.en), !.ls[s.use].root = s.node]
    [] e.e = "LR"   ->
         LET s1 == [s EXCEPT !.cs.on = FALSE] IN
         IF ~s.cs.on \/ s.cs.t # e.t \/ s.use = 0 THEN s1
         ELSE LET l == CurLog(s) IN
              IF s.cs.kind = "run" THEN
                SetLog(s1, [l EXCEPT !.prior = IF l.ran THEN <<@[1] + l.last[1] - l.start[2], @[2] + l.last[2] - l.start[1]>> ELSE @,
                                     !.start = <<s.cs.tm, e.tm>>, !.last = <<s.cs.tm, e.tm>>, !.ran = FALSE])
              ELSE IF s.cs.kind = "trial" THEN
                LET due == l.completed + 1 - l.lastLog >= l.delta
                    th  == After(l, s.cs.tm, e.tm, s.cs.logged)
                    l1  == [l EXCEPT !.completed = @ + 1, !.lastLog = IF due THEN l.completed + 1 ELSE @,
                                     !.thrs = IF th = {} THEN @ ELSE th, !.last = <<s.cs.tm, e.tm>>, !.ran = TRUE]
                IN [SetLog(s1, l1) EXCEPT !.busy = @ \ {e.t},
                                          !.roots = [k \in DOMAIN @ |-> IF @[k].n = s.node THEN [@[k] EXCEPT !.done = @ + 1] ELSE @[k]]]
              ELSE s1
    [] OTHER -> s
=============================================================================
