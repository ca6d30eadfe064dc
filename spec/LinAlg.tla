------------------------------ MODULE LinAlg -------------------------------
(* Exact matrices over Rat: a matrix is a sequence of rows.  MMul and GJ    *)
(* are evaluated by java/LinAlg.java; LinAlgSelf checks it against the      *)
(* definitions below.                                                       *)
EXTENDS Rat, TLC

MkMat(n, m, F(_, _)) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..m |-> F(i, j)])])
Rows(A) == Len(A)
Cols(A) == IF A = <<>> THEN 0 ELSE Len(A[1])

MT(A) == LET F(i, j) == A[j][i] IN MkMat(Cols(A), Rows(A), F)
MAdd(A, B) == LET F(i, j) == RAdd(A[i][j], B[i][j]) IN MkMat(Rows(A), Cols(A), F)
MSub(A, B) == LET F(i, j) == RSub(A[i][j], B[i][j]) IN MkMat(Rows(A), Cols(A), F)
MScale(c, A) == LET F(i, j) == RMul(c, A[i][j]) IN MkMat(Rows(A), Cols(A), F)
MZero(n, m) == LET F(i, j) == "0" IN MkMat(n, m, F)
MDiagOf(v) == LET F(i, j) == IF i = j THEN v[i] ELSE "0" IN MkMat(Len(v), Len(v), F)
MEye(n) == LET F(i, j) == IF i = j THEN "1" ELSE "0" IN MkMat(n, n, F)
Diag(A) == [i \in 1..Rows(A) |-> A[i][i]]
Trace(A) == RSum(Diag(A))
ColVec(v) == LET F(i, j) == v[i] IN MkMat(Len(v), 1, F)
MRow(A, i) == A[i]

MMulDef(A, B) == LET BT == MT(B)
                     F(i, j) == RDot(A[i], BT[j])
                 IN MkMat(Rows(A), Cols(B), F)
MMul(A, B) == MMulDef(A, B)
MulV(A, v) == TLCEval([i \in 1..Rows(A) |-> RDot(A[i], v)])

\* Gauss-Jordan elimination without pivoting, for symmetric positive definite A:
\* [ok, inv, piv]; ok iff every pivot is positive; piv are the pivots (so that
\* det A is their product and the smallest tells how close A is to singular).
RECURSIVE GJStep(_, _, _, _)
GJStep(A, n, k, piv) ==
    IF k > n THEN [ok |-> TRUE, inv |-> LET F(i, j) == A[i][n + j] IN MkMat(n, n, F), piv |-> piv]
    ELSE LET p == A[k][k] IN
         IF RLe(p, "0") THEN [ok |-> FALSE, inv |-> <<>>, piv |-> Append(piv, p)]
         ELSE LET rk == TLCEval([j \in 1..2 * n |-> RDiv(A[k][j], p)])
                  F(i, j) == IF i = k THEN rk[j] ELSE RSub(A[i][j], RMul(A[i][k], rk[j]))
              IN GJStep(MkMat(n, 2 * n, F), n, k + 1, Append(piv, p))
GJDef(A) == LET n == Rows(A)
                F(i, j) == IF j <= n THEN A[i][j] ELSE IF j = n + i THEN "1" ELSE "0"
            IN GJStep(MkMat(n, 2 * n, F), n, 1, <<>>)
GJ(A) == GJDef(A)

RECURSIVE RSumLn(_)
RSumLn(s) == IF s = <<>> THEN "0" ELSE RAdd(RLn(Head(s)), RSumLn(Tail(s)))
RECURSIVE RMin(_)
RMin(s) == IF Len(s) = 1 THEN s[1]
           ELSE LET r == RMin(Tail(s)) IN IF RLe(s[1], r) THEN s[1] ELSE r
\* Determinant of a (small) symmetric positive semi-definite matrix by Laplace.
RECURSIVE Det(_)
Minor(A, r, c) == LET F(i, j) == A[IF i < r THEN i ELSE i + 1][IF j < c THEN j ELSE j + 1]
                  IN MkMat(Rows(A) - 1, Rows(A) - 1, F)
Det(A) == IF Rows(A) = 0 THEN "1"
          ELSE RSum([j \in 1..Rows(A) |->
                 RMul(IF j % 2 = 1 THEN A[1][j] ELSE RNeg(A[1][j]), Det(Minor(A, 1, j)))])
=============================================================================
