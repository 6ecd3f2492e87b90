-------------------------------- MODULE Rat --------------------------------
(* Exact rational numbers for TLC.  A number is a string "n" or "n/d" in    *)
(* lowest terms, or "nan", "inf", "-inf" (IEEE conventions).  TLC integers  *)
(* are accepted wherever a number is.  Every operator below is evaluated by *)
(* java/Rat.java (BigInteger); the bodies here only declare the arity.      *)
(* RExp, RLn, RSqrt and RPhi are evaluated in double precision.             *)
EXTENDS Integers, Sequences
RAdd(a, b) == CHOOSE r \in STRING : TRUE
RSub(a, b) == CHOOSE r \in STRING : TRUE
RMul(a, b) == CHOOSE r \in STRING : TRUE
RDiv(a, b) == CHOOSE r \in STRING : TRUE
RNeg(a) == CHOOSE r \in STRING : TRUE
RAbs(a) == CHOOSE r \in STRING : TRUE
RLt(a, b) == CHOOSE r \in BOOLEAN : TRUE
RLe(a, b) == CHOOSE r \in BOOLEAN : TRUE
REq(a, b) == CHOOSE r \in BOOLEAN : TRUE
RIsNum(a) == CHOOSE r \in BOOLEAN : TRUE
RIsNaN(a) == CHOOSE r \in BOOLEAN : TRUE
RInt(a) == CHOOSE r \in STRING : TRUE      \* canonical form
RClose(a, b, abstol, reltol) == CHOOSE r \in BOOLEAN : TRUE
\* the same for trees (nested sequences) of numbers: same shape, all leaves close
RSame(a, b, abstol, reltol) == CHOOSE r \in BOOLEAN : TRUE
RSum(s) == CHOOSE r \in STRING : TRUE
RDot(s, t) == CHOOSE r \in STRING : TRUE
RSeqClose(s, t, abstol, reltol) == CHOOSE r \in BOOLEAN : TRUE
RExp(a) == CHOOSE r \in STRING : TRUE
RLn(a) == CHOOSE r \in STRING : TRUE
RSqrt(a) == CHOOSE r \in STRING : TRUE
RPow2(i) == CHOOSE r \in STRING : TRUE
RFloor(a) == CHOOSE r \in STRING : TRUE
RPhi(a) == CHOOSE r \in STRING : TRUE
RNormPdf(a) == CHOOSE r \in STRING : TRUE
RToInt(a) == CHOOSE r \in Int : TRUE
RIsInt(a) == CHOOSE r \in BOOLEAN : TRUE
RDbl(a) == CHOOSE r \in STRING : TRUE       \* rounded to the nearest double
RForce(s) == CHOOSE r \in Seq(STRING) : TRUE \* s itself, fully evaluated
RSort(s) == CHOOSE r \in Seq(STRING) : TRUE
RMax2(a, b) == IF RLt(a, b) THEN b ELSE a
RMin2(a, b) == IF RLt(b, a) THEN b ELSE a
=============================================================================
