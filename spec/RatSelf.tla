------------------------------ MODULE RatSelf ------------------------------
(* Self-check of the Java override of Rat against 32-bit integer pairs.     *)
EXTENDS Rat, TLC, FiniteSets
VARIABLES a, b, c, d
Range == -4..4
Dens == 1..4
vars == <<a, b, c, d>>
Init == a \in Range /\ b \in Dens /\ c \in Range /\ d \in Dens
Next == UNCHANGED vars
S(n, m) == RDiv(ToString(n), ToString(m))
Eq(x, n, m) == RMul(x, ToString(m)) = ToString(n)
Ok == /\ Eq(RAdd(S(a, b), S(c, d)), a * d + c * b, b * d)
      /\ Eq(RSub(S(a, b), S(c, d)), a * d - c * b, b * d)
      /\ Eq(RMul(S(a, b), S(c, d)), a * c, b * d)
      /\ c # 0 => Eq(RMul(RDiv(S(a, b), S(c, d)), ToString(c)), a * d, b)
      /\ RLe(S(a, b), S(c, d)) = (a * d <= c * b)
      /\ (S(a, b) = S(c, d)) = (a * d = c * b)
      /\ RSum(<<S(a, b), S(c, d), S(a, d)>>) = RAdd(S(a, b), RAdd(S(c, d), S(a, d)))
      /\ RDot(<<S(a, b), S(c, d)>>, <<S(c, b), S(a, d)>>)
             = RAdd(RMul(S(a, b), S(c, b)), RMul(S(c, d), S(a, d)))
      /\ a > 0 /\ c > 0 =>
            /\ RLt(RAbs(RSub(RLn(RMul(S(a, b), S(c, d))), RAdd(RLn(S(a, b)), RLn(S(c, d))))), "1/1000000000000000000000000")
            /\ RLt(RAbs(RSub(RMul(RSqrt(S(a, b)), RSqrt(S(a, b))), S(a, b))), "1/1000000000000000000000000")
      \* ln 2 = 0.693147180559945309417232121458...
      /\ RLt(RAbs(RSub(RLn("2"), "693147180559945309417232121458/1000000000000000000000000000000")), "1/100000000000000000000000000")
=============================================================================
