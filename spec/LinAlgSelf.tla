---------------------------- MODULE LinAlgSelf -----------------------------
(* Self-check of the override of LinAlg against the TLA+ definitions, and   *)
(* of the definitions against the laws of inverse and determinant.          *)
EXTENDS LinAlg, Integers
VARIABLES a, b, c, d
vars == <<a, b, c, d>>
S(n, m) == RDiv(ToString(n), ToString(m))
Init == a \in -2..2 /\ b \in -2..2 /\ c \in 1..3 /\ d \in -1..2
Next == UNCHANGED vars
A == <<<<S(a, 3), S(b, 1), S(1, c)>>, <<S(d, 2), S(c, 1), S(a, c)>>, <<S(b, 2), S(1, 1), S(d, 1)>>>>
P == MAdd(MMulDef(A, MT(A)), MDiagOf(<<S(1, c), S(d + 2, 7), "1/3">>))
Prod(s) == RMul(s[1], RMul(s[2], s[3]))
Ok == /\ MMul(A, P) = MMulDef(A, P)
      /\ GJ(A) = GJDef(A)
      /\ GJ(P) = GJDef(P)
      /\ GJ(P).ok
      /\ MMul(GJ(P).inv, P) = MEye(3)
      /\ Prod(GJ(P).piv) = Det(P)
=============================================================================
