------------------------------- MODULE Random -------------------------------
(* Random streams of two generators with the same seed, drawn in step.       *)
EXTENDS Dbl, FiniteSets
RC(c, name) == IF c THEN {} ELSE {"C20:" \o name}
\* n draws, each bucket within 6 standard deviations and a factor of its share (a reduction modulo the range may
\* favour the lower part by up to a factor of two)
Spread(b, n, sh) == \A k \in DOMAIN b :
    LET m == DMul(DInt(n), sh[k]) sd == DSqrt(m) IN
    /\ DLe(DInt(b[k]), DAdd(DMul(DInt(2), m), DMul(DInt(6), sd)))
    /\ DLe(DSub(DDiv(m, DInt(2)), DMul(DInt(6), sd)), DInt(b[k]))
Even(b, n) == \A k \in DOMAIN b : LET m == DRat(n, 8) IN DLe(DAbs(DSub(DInt(b[k]), m)), DMul(DInt(6), DSqrt(m)))
RandomBad(e) ==
  CASE e.e = "RI" -> RC(e.in, "integer-out-of-range") \cup RC(e.eq, "same-seed-different-integers")
    [] e.e = "RU" -> RC(DLe(Zero, e.x) /\ DLt(e.x, One), "real-out-of-range") \cup RC(e.x = e.y, "same-seed-different-reals")
    [] e.e = "RS" -> RC(e.in, "out-of-range") \cup RC(Spread(e.bi, e.n, e.sh) /\ e.all, "integers-not-spread") \cup RC(Even(e.bu, e.n), "reals-not-spread")
                      \cup RC(~e.coarse, "reals-too-coarse")
    [] e.e = "RZ" -> RC(e.x # e.y /\ e.u # e.v, "seed-zero-repeats")
    [] OTHER -> {}
=============================================================================
