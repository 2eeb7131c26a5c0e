-------------------------------- MODULE Dbl --------------------------------
(* IEEE-754 double arithmetic for TLC.  A double is a pair <<hi, lo>> of     *)
(* 32-bit integers; every operator is overridden by overrides/Dbl.java.      *)
(* The bodies below are placeholders that TLC never evaluates.               *)
EXTENDS Integers, Sequences
DInt(n)        == CHOOSE x \in Int \X Int : TRUE
DRat(n, m)     == CHOOSE x \in Int \X Int : TRUE
DAdd(a, c)     == CHOOSE x \in Int \X Int : TRUE
DSub(a, c)     == CHOOSE x \in Int \X Int : TRUE
DMul(a, c)     == CHOOSE x \in Int \X Int : TRUE
DDiv(a, c)     == CHOOSE x \in Int \X Int : TRUE
DNeg(a)        == CHOOSE x \in Int \X Int : TRUE
DAbs(a)        == CHOOSE x \in Int \X Int : TRUE
DExp(a)        == CHOOSE x \in Int \X Int : TRUE
DLog(a)        == CHOOSE x \in Int \X Int : TRUE
DSqrt(a)       == CHOOSE x \in Int \X Int : TRUE
DPow(a, c)     == CHOOSE x \in Int \X Int : TRUE
DMax(a, c)     == CHOOSE x \in Int \X Int : TRUE
DMin(a, c)     == CHOOSE x \in Int \X Int : TRUE
DSum(s)        == CHOOSE x \in Int \X Int : TRUE
DSumAbs(s)     == CHOOSE x \in Int \X Int : TRUE
DMaxSeq(s)     == CHOOSE x \in Int \X Int : TRUE
DLt(a, c)      == CHOOSE x \in BOOLEAN : TRUE
DLe(a, c)      == CHOOSE x \in BOOLEAN : TRUE
DEq(a, c)      == CHOOSE x \in BOOLEAN : TRUE
DFinite(a)     == CHOOSE x \in BOOLEAN : TRUE
DIsNaN(a)      == CHOOSE x \in BOOLEAN : TRUE
DNear(a, c, e) == CHOOSE x \in BOOLEAN : TRUE
DNearS(a, c, e, s) == CHOOSE x \in BOOLEAN : TRUE
DFloor(a)      == CHOOSE x \in Int : TRUE
DStr(a)        == CHOOSE x \in STRING : TRUE
DStrG(a)       == CHOOSE x \in STRING : TRUE
Zero == DInt(0)
One  == DInt(1)
=============================================================================
