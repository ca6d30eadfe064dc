-------------------------------- MODULE Rat --------------------------------
(* Exact rationals for TLC, as canonical strings "n" or "n/d" with d > 1.   *)
(* TLC integers are 32-bit, so the five primitives and the three fast folds *)
(* are evaluated by the Java override java/Rat.java (BigInteger).  RatSelf  *)
(* checks the override against plain integer arithmetic on a finite range.  *)
EXTENDS Integers, Sequences

RAdd(a, b) == CHOOSE r \in STRING : TRUE   \* a + b
RSub(a, b) == CHOOSE r \in STRING : TRUE   \* a - b
RMul(a, b) == CHOOSE r \in STRING : TRUE   \* a * b
RDiv(a, b) == CHOOSE r \in STRING : TRUE   \* a / b, an error for b = 0
RLe(a, b)  == CHOOSE r \in BOOLEAN : TRUE  \* a <= b
RSqrt(a)   == CHOOSE r \in STRING : TRUE   \* square root, to 1e-30
RLn(a)     == CHOOSE r \in STRING : TRUE   \* natural logarithm, to 1e-30

\* Folds; the definitions below are what the override computes.
RECURSIVE RSum(_)
RSum(s) == IF s = <<>> THEN "0" ELSE RAdd(Head(s), RSum(Tail(s)))
RDot(s, t) == RSum([i \in 1..Len(s) |-> RMul(s[i], t[i])])

RNeg(a) == RSub("0", a)
RAbs(a) == IF RLe("0", a) THEN a ELSE RNeg(a)
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
RLt(a, b) == ~RLe(b, a)
=============================================================================
