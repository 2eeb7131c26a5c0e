----------------------------- MODULE AliasModel -----------------------------
(* The alias table of CategoricalDistribution (construction, refresh after   *)
(* updates) over integer weights: thresholds are multiples of 1/Total, so    *)
(* everything is exact.  The construction may pair any large entry with any  *)
(* small one.  When it is finished, the table must give every key the mass   *)
(* of its weight, and a key of weight zero none.  Variants other than "code" *)
(* are mistakes the model must expose:                                       *)
(*   forget   the large entry is dropped once it is used                     *)
(*   first    a donated part always goes to the first large entry            *)
(*   lazy     an update of the weights does not refresh the table            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, MaxW, Updates, Freq, Variant
VARIABLES w,      \* current weights of the keys 1..n
          tw,     \* the weights the table was built from
          thr,    \* thresholds, in units of 1/Total(tw), of the entries 1..n
          snd,    \* second key of each entry
          big, small, pc, lag, ups
vars == <<w, tw, thr, snd, big, small, pc, lag, ups>>
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
Total(f) == SumTo(f, Len(f))
Weights == UNION { { f \in [1..n -> 0..MaxW] : Total(f) > 0 } : n \in 1..N }
Start(f) == LET n == Len(f) u == Total(f) IN
  [thr |-> [k \in 1..n |-> f[k] * n], snd |-> [k \in 1..n |-> k],
   big |-> { k \in 1..n : f[k] * n > u }, small |-> { k \in 1..n : f[k] * n < u }]
Build(f) == LET b == Start(f) IN tw' = f /\ thr' = b.thr /\ snd' = b.snd /\ big' = b.big /\ small' = b.small /\ pc' = "build"
Init == /\ w \in Weights /\ tw = w /\ LET b == Start(w) IN thr = b.thr /\ snd = b.snd /\ big = b.big /\ small = b.small
        /\ pc = "build" /\ lag = 0 /\ ups = 0
U == Total(tw)
Pair == /\ pc = "build" /\ big # {} /\ small # {}
        /\ \E l \in big, s \in small :
             LET left == thr[l] - (U - thr[s])
                 to == IF Variant = "first" THEN CHOOSE k \in big : \A j \in big : k <= j ELSE l
             IN /\ thr' = [thr EXCEPT ![l] = left]
                /\ snd' = [snd EXCEPT ![s] = to]
                /\ big' = IF left > U /\ Variant # "forget" THEN big ELSE big \ {l}
                /\ small' = (small \ {s}) \cup (IF left < U THEN {l} ELSE {})
        /\ UNCHANGED <<w, tw, pc, lag, ups>>
Finish == /\ pc = "build" /\ (big = {} \/ small = {})
          /\ thr' = [k \in DOMAIN thr |-> IF k \in big \cup small THEN U ELSE thr[k]]
          /\ big' = {} /\ small' = {} /\ pc' = "ready" /\ UNCHANGED <<w, tw, snd, lag, ups>>
\* one weight changes, or a key is added; every Freq-th update rebuilds the table
Update == /\ pc = "ready" /\ ups < Updates /\ ups' = ups + 1
          /\ \E f \in Weights :
               /\ \/ Len(f) = Len(w) /\ Cardinality({ k \in 1..Len(w) : f[k] # w[k] }) <= 1
                  \/ Len(f) = Len(w) + 1 /\ \A k \in 1..Len(w) : f[k] = w[k]
               /\ w' = f
               /\ IF lag + 1 >= Freq /\ Variant # "lazy" THEN Build(f) /\ lag' = 0
                  ELSE lag' = lag + 1 /\ UNCHANGED <<tw, thr, snd, big, small, pc>>
Next == Pair \/ Finish \/ Update
Spec == Init /\ [][Next]_vars
\* the mass of key k: each of the n entries is drawn with probability 1/n
Mass(k) == LET n == Len(tw) IN thr[k] + SumTo([j \in 1..n |-> IF snd[j] = k THEN U - thr[j] ELSE 0], n)
InRange   == \A k \in DOMAIN thr : thr[k] >= 0 /\ (pc = "ready" => thr[k] <= U)
Exact     == pc = "ready" => \A k \in DOMAIN thr : Mass(k) = tw[k] * Len(tw)
Fresh     == pc = "ready" => lag < Freq /\ (lag = 0 => tw = w)
Conserved == pc = "build" => LET n == Len(tw) IN \A k \in big \cup small : snd[k] = k
=============================================================================
