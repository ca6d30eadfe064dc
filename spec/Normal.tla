------------------------------- MODULE Normal -------------------------------
(* Normal random variables: constructed eagerly or from functions, combined   *)
(* as independent variables, and asked for everything they know.              *)
(*                                                                            *)
(* State: a sequence of normals, each                                         *)
(*   [mean, var, zero, fns, known]                                            *)
(* mean and var are the law; zero tells that the mean was given as the number *)
(* zero; fns is the set of functions the normal was given (empty if it was    *)
(* constructed eagerly); known the parts ("mean", "var", "diag") that have    *)
(* been built; "zero" marks an omitted mean that has been looked at.          *)
EXTENDS Judge

Parts == {"mean", "var", "diag"}
Produces(f) == CASE f = "mean" -> {"mean"} [] f = "var" -> {"var"} [] f = "var_diag" -> {"diag"}
                 [] f = "mean_var" -> {"mean", "var"} [] f = "mean_var_diag" -> {"mean", "diag"}

\* The parts that may be built to answer a query about normal n.
NeedDiag(n) == IF "var_diag" \in n.fns THEN {"diag"} ELSE {"diag", "var"}
\* A joint function gives the diagonal without the variance.
NeedMarg(n) ==
    {"mean"} \cup (IF "var_diag" \in n.fns \/ ("mean_var_diag" \in n.fns /\ {"mean", "zero"} \cap n.known = {})
                   THEN {"diag"} ELSE {"diag", "var"})
Size(n) == IF n.zero THEN {"var", "diag"} ELSE {}   \* to make zeros of the right size
Need(q, n) ==
    CASE q \in {"str", "repr"} -> {}
      [] q = "mean_is_zero" -> {"mean"}
      [] q = "mean" -> {"mean"} \cup Size(n)
      [] q \in {"var", "entropy"} -> {"var"}
      [] q = "dim" -> {"var", "diag"}
      [] q = "dtype" -> Parts
      [] q = "var_diag" -> NeedDiag(n)
      [] q \in {"marginals", "bounds"} -> NeedMarg(n)
      [] q = "diagonalise" -> {"mean"} \cup NeedDiag(n)
      [] OTHER -> {"mean", "var"}

\* Calls of functions, [n |-> normal, f |-> function], in order: allowed are those
\* that build needed parts, and only such, that have not been built before.
Looked(ns, need) ==
    [i \in 1..Len(ns) |-> IF "var" \in ns[i].fns /\ "mean" \notin ns[i].fns /\ "mean" \in need[i]
                          THEN [ns[i] EXCEPT !.known = @ \cup {"zero"}] ELSE ns[i]]
RECURSIVE Called(_, _, _)
Called(ns, calls, need) ==
    IF calls = <<>> THEN [ok |-> TRUE, ns |-> Looked(ns, need)]
    ELSE LET c == Head(calls)
             P == Produces(c.f)
         IN IF c.f \in ns[c.n].fns /\ P \subseteq need[c.n] /\ P \cap ns[c.n].known = {}
            THEN Called([ns EXCEPT ![c.n].known = @ \cup P], Tail(calls), need)
            ELSE [ok |-> FALSE, ns |-> [ns EXCEPT ![c.n].known = @ \cup P]]

Eager(mean, var) == [mean |-> mean, var |-> var, zero |-> FALSE, fns |-> {}, known |-> Parts]
NAdd(a, b, s) == Eager([i \in 1..Len(a.mean) |-> RAdd(a.mean[i], RMul(s, b.mean[i]))], MAdd(a.var, b.var))
\* a is multiplied by the number c and the vector v is added.
NAff(a, c, v) == Eager([i \in 1..Len(a.mean) |-> RAdd(RMul(c, a.mean[i]), v[i])], MScale(RMul(c, c), a.var))
NScale(a, v) == Eager([i \in 1..Len(a.mean) |-> RMul(v[i], a.mean[i])],
                      LET F(i, j) == RMul(RMul(v[i], v[j]), a.var[i][j]) IN MkMat(Len(v), Len(v), F))
NMat(A, a) == Eager(MulV(A, a.mean), MMul(MMul(A, a.var), MT(A)))
NDiag(a) == Eager(a.mean, MDiagOf(Diag(a.var)))

\* A constant: a number or a column vector.
CVec(c, n) == IF Len(c) = 1 THEN [i \in 1..n |-> c[1]] ELSE c
VNeg(v) == [i \in 1..Len(v) |-> RNeg(v[i])]
VInv(v) == [i \in 1..Len(v) |-> RDiv("1", v[i])]
Arith(ns, ev) ==
    LET a == ns[ev.a]
        n == Len(a.mean)
        Z == [i \in 1..n |-> "0"]
    IN CASE ev.k = "n+n" -> NAdd(a, ns[ev.b], "1")
         [] ev.k = "n-n" -> NAdd(a, ns[ev.b], "-1")
         [] ev.k \in {"n+c", "c+n"} -> NAff(a, "1", CVec(ev.c, n))
         [] ev.k = "n-c" -> NAff(a, "1", VNeg(CVec(ev.c, n)))
         [] ev.k = "c-n" -> NAff(a, "-1", CVec(ev.c, n))
         [] ev.k \in {"n*c", "c*n"} -> NScale(a, CVec(ev.c, n))
         [] ev.k = "n/c" -> NScale(a, VInv(CVec(ev.c, n)))
         [] ev.k = "-n" -> NAff(a, "-1", Z)
         [] ev.k = "lmatmul" -> NMat(ev.A, a)
         [] ev.k = "rmatmul" -> NMat(MT(ev.A), a)
         [] ev.k = "diagonalise" -> NDiag(a)
         [] ev.k = "cast" -> Eager(a.mean, a.var)

\* ---------------------------------------------------------------- divergences
\* KL(a || b).
KL(a, b) ==
    LET ga == GJ(a.var)
        gb == GJ(b.var)
        r == Vsub(b.mean, a.mean)
    IN IF ~(PivOK(ga, "1/10000") /\ PivOK(gb, "1/10000")) THEN [ok |-> FALSE, v |-> "0"]
       ELSE [ok |-> TRUE,
             v |-> RDiv(RSum(<<Trace(MMul(gb.inv, a.var)), RDot(r, MulV(gb.inv, r)), RNeg(ToString(Len(r))),
                               RSumLn(gb.piv), RNeg(RSumLn(ga.piv))>>), "2")]

\* The trace of the square root of A^(1/2) B A^(1/2). In one and two dimensions it
\* is a function of trace and determinant; otherwise by symmetric positive definite
\* matrices R and T with R R = A and T T = R B R.
Symm(A) == A = MT(A)
RootTrace(A, B, R, T) ==
    LET n == Rows(A)
        M == MMul(A, B)
        det == RMax("0", RSub(RMul(M[1][1], M[2][2]), RMul(M[1][2], M[2][1])))
        tr == Trace(M)
    IN IF n = 1 THEN [ok |-> TRUE, v |-> RSqrt(M[1][1])]
       ELSE IF n = 2 THEN [ok |-> TRUE, v |-> RSqrt(RMax("0", RAdd(tr, RMul("2", RSqrt(det)))))]
       ELSE [ok |-> R # <<>> /\ Symm(R) /\ Symm(T) /\ GJ(R).ok /\ GJ(T).ok
                    /\ MMul(R, R) = A /\ MMul(T, T) = MMul(MMul(R, B), R),
             v |-> IF T = <<>> THEN "0" ELSE Trace(T)]
W2(a, b, R, T) ==
    LET t == RootTrace(a.var, b.var, R, T)
        d == Vsub(a.mean, b.mean)
        sq == RSum(<<RDot(d, d), Trace(a.var), Trace(b.var), RMul("-2", t.v)>>)
    IN [ok |-> t.ok, v |-> RSqrt(RMax("0", sq))]

\* ---------------------------------------------------------------- operations
Two == {"n+n", "n-n", "kl", "w2"}
\* The normals an event may build parts of, and which.
Needs(ns, ev) ==
    [i \in 1..Len(ns) |->
        IF ev.op = "arith" /\ ev.k = "diagonalise" /\ i = ev.a THEN Need("diagonalise", ns[i])
        ELSE IF ev.op = "arith" /\ (i = ev.a \/ (ev.k \in Two /\ i = ev.b)) THEN {"mean", "var"}
        ELSE IF ev.op = "ask" /\ i = ev.n THEN Need(ev.ask.a, ns[i])
        ELSE IF ev.op = "pair" /\ i \in {ev.a, ev.b} THEN {"mean", "var"}
        ELSE IF ev.op = "sample" /\ i = ev.n THEN {"mean", "var"}
        ELSE IF ev.op = "illegal" /\ i \in {ev.a, ev.b} THEN {"mean", "var"}  \* p - n negates n before it is rejected
        ELSE {}]

NV(v) == [ok |-> TRUE, skip |-> FALSE, v |-> v]
NSkip == [ok |-> TRUE, skip |-> TRUE, v |-> <<>>]
NNo == [ok |-> FALSE, skip |-> FALSE, v |-> <<>>]
NAnswer(ns, ev) ==
    CASE ev.op = "ask" /\ ev.ask.a \in {"str", "repr", "dtype"} -> NV("ok")
      [] ev.op = "ask" /\ ev.ask.a = "mean_is_zero" -> NV(IF ns[ev.n].zero THEN "1" ELSE "any")
      [] ev.op = "ask" -> Ask(ns[ev.n], ev.ask)
      [] ev.op = "pair" /\ ev.k = "kl" ->
            LET r == KL(ns[ev.a], ns[ev.b]) IN IF r.ok THEN NV(r.v) ELSE NSkip
      [] ev.op = "pair" /\ ev.k = "w2" ->
            LET r == W2(ns[ev.a], ns[ev.b], ev.R, ev.T) IN IF r.ok THEN NV(r.v) ELSE NSkip
      [] ev.op = "sample" ->
            LET n == ns[ev.n]
            IN NV([sizes |-> <<Len(n.mean)>>, mean |-> n.mean, var |-> MAdd(n.var, NoiseM(ev.extra, Len(n.mean)))])
      [] ev.op = "illegal" -> NNo
      [] OTHER -> NV(<<>>)

NDo(ns, ev) ==
    CASE ev.op = "new" -> Append(ns, [Eager(ev.mean, ev.var) EXCEPT !.zero = ev.mform \in {"zero", "omit", "zerom"}])
      [] ev.op = "lazy" -> Append(ns, [mean |-> ev.mean, var |-> ev.var, zero |-> ev.mform \in {"zero", "omit"},
                                       fns |-> {ev.fns[i] : i \in 1..Len(ev.fns)} \cup
                                               (IF ev.mform = "omit" THEN {"var"} ELSE {"mean", "var"}),
                                       known |-> {}])
      [] ev.op = "arith" -> Append(ns, Arith(ns, ev))
      [] OTHER -> ns
=============================================================================
