------------------------------- MODULE Decay --------------------------------
(* Temperature schedules.                                                    *)
EXTENDS Dbl
TC(c, name) == IF c THEN {} ELSE {"C25:" \o name}
F(k, m) == CASE k = 1 -> DDiv(One, DSqrt(DAdd(One, m)))
             [] k = 2 -> DDiv(One, DLog(DAdd(DExp(One), m)))
             [] k = 3 -> DDiv(DAdd(One, DExp(DInt(-5))), DAdd(One, DExp(DSub(m, DInt(5)))))
Temp(k, init, min, v, sc) == DMax(DMul(init, F(k, DMul(sc, DInt(v)))), min)
Close(a, b) == DNearS(a, b, 10, Zero) \/ (DLe(DAbs(a), DRat(1, 1000000000)) /\ DLe(DAbs(DSub(a, b)), DMul(DRat(1, 1000000000), DRat(1, 1000000000))))
DecayBad(e) ==
  CASE e.e = "TF" ->
         TC(\A k \in DOMAIN e.x : Close(e.y[k], F(e.f, e.x[k])), "decay-function")
    \cup TC(\A k \in DOMAIN e.x : e.x[k] = Zero => DNear(e.y[k], One, 12), "decay-does-not-start-at-one")
    \cup TC(\A k \in 2..Len(e.x) : DLe(e.y[k], e.y[k - 1]), "decay-increases")
    \cup TC(\A k \in DOMAIN e.x : DLe(e.x[k], DInt(700)) => DLt(Zero, e.y[k]), "decay-not-positive")
    [] e.e = "TD" ->
         TC(Close(e.y, Temp(e.f, e.init, e.min, e.v, e.sc)), "decayed-temperature")
    \cup TC(DLe(e.min, e.y), "below-the-minimum")
    [] OTHER -> {}
=============================================================================
