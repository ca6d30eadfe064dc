------------------------------- MODULE Judge -------------------------------
(* When a recorded value counts as the one the specification prescribes.      *)
EXTENDS Stheno

\* ------------------------------------------------------------- comparisons
IsNum(o) == o \notin {"nan", "inf", "-inf"}
Close(tol, e, o) == /\ IsNum(o)
                    /\ RLe(RAbs(RSub(e, o)), RMul(tol, RAdd("1", RAbs(e))))
CloseV(tol, e, o) == Len(e) = Len(o) /\ \A i \in 1..Len(e) : Close(tol, e[i], o[i])
CloseM(tol, e, o) == Len(e) = Len(o) /\ \A i \in 1..Len(e) : CloseV(tol, e[i], o[i])
AskClose(tol, a, e) ==
    CASE a.a \in {"mean", "var", "m2"} -> CloseM(tol, e, a.val)
      [] a.a = "var_diag" -> CloseV(tol, e, a.val)
      [] a.a \in {"mean_var", "diagonalise", "affine", "double"} -> CloseM(tol, e[1], a.val[1]) /\ CloseM(tol, e[2], a.val[2])
      [] a.a = "marginals" ->
            /\ CloseV(tol, e[1], a.val[1]) /\ CloseV(tol, e[2], a.val[2])
            /\ \A i \in 1..Len(a.val[2]) : RLe("0", a.val[2][i])
      [] a.a = "bounds" ->   \* a square root of noise near zero is larger than the noise
            LET t == "1/1000"
                Small(i) == RLe(RSub(e[3][i], e[1][i]), "1/50")
            IN /\ CloseV(tol, e[1], a.val[1])
               /\ \A k \in {2, 3} : /\ Len(e[k]) = Len(a.val[k])
                                    /\ \A i \in 1..Len(e[k]) :
                                         Close(IF Small(i) THEN t ELSE tol, e[k][i], a.val[k][i])
      [] a.a = "dim" -> e = a.val
      [] a.a = "logpdf" -> IF a.scalar THEN Close(tol, e, a.val) ELSE CloseV(tol, e, a.val)
      [] a.a \in {"entropy", "kl"} -> Close(tol, e, a.val)
      [] a.a = "draws" -> /\ a.val.shape = e.shape
                          /\ \A i \in 1..Len(e.lo) : RLe(e.lo[i], a.val.lo[i]) /\ RLe(a.val.hi[i], e.hi[i])

\* Draws: as many columns as asked for, split by the sizes of the distributions;
\* their empirical moments are within six standard errors of the law, and every
\* linear combination w of every draw is within seven standard deviations.
SE(k, v) == RAdd(RMul(k, RSqrt(RMax(v, "0"))), "1/1000")
SampleOK(ev, e) ==
    LET K == Len(e.mean)
        n == ToString(ev.n)
        Near(a, b, s) == RLe(RAbs(RSub(a, b)), s)
    IN CASE ev.val.shapes # [i \in 1..Len(e.sizes) |-> <<e.sizes[i], ev.n>>] -> "shapes of the blocks"
         [] ~\A i \in 1..K : Near(ev.val.mean[i], e.mean[i], SE("6", RDiv(e.var[i][i], n))) -> "mean of the draws"
         [] ~(ev.n < 1000 \/ \A i \in 1..K : \A j \in 1..K :
                Near(ev.val.cov[i][j], e.var[i][j],
                     SE("6", RDiv(RAdd(RMul(e.var[i][i], e.var[j][j]), RMul(e.var[i][j], e.var[i][j])), n)))) -> "covariance of the draws"
         [] ~\A k \in 1..Len(ev.ws) :
                LET w == ev.ws[k]
                    mu == RDot(w, e.mean)
                    sd == SE("7", RDot(w, MulV(e.var, w)))
                IN Near(ev.val.lo[k], mu, sd) /\ Near(ev.val.hi[k], mu, sd) -> "a relation between the draws"
         [] OTHER -> ""
=============================================================================
