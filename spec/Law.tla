-------------------------------- MODULE Law --------------------------------
(* The denotation of stheno model programs: what joint Gaussian law the     *)
(* processes of a measure have.  It is stated from the mathematics, not     *)
(* from the rules of the implementation: every process is, at every input,  *)
(* an affine combination of atoms (independent processes, moment-matched    *)
(* product residuals, and processes inherited through conditioning), and    *)
(* every covariance follows from bilinearity.                               *)
(*                                                                          *)
(* G = [node, meas]: node[p] says how process p was constructed; meas[m] is *)
(*   [par, inh, kind, S, Q, w, ok]                                          *)
(* with par the measure that was conditioned (0: none), inh the set of      *)
(* processes inherited from it, and for a, b in inh                         *)
(*   mean(a)   = mean_par(a) + k(a, S) w                                    *)
(*   cov(a, b) = cov_par(a, b) - k(a, S) Q k(S, b).                         *)
(* A site is [p, o, x, d]: process, output path, point, and the dimensions  *)
(* to differentiate in, one after the other (<<>>: the value itself).       *)
EXTENDS LinAlg, Integers, Sequences, FiniteSets, SequencesExt

\* -------------------------------------------------------------- derivatives
\* A multi-index is a sequence of dimensions.  All ways of dealing it out over
\* two factors (Leibniz), as pairs.
RECURSIVE Splits(_)
Splits(d) ==
    IF d = <<>> THEN <<<<d, d>>>>
    ELSE LET S == Splits(Tail(d))
         IN [i \in 1..Len(S) |-> <<<<d[1]>> \o S[i][1], S[i][2]>>] \o
            [i \in 1..Len(S) |-> <<S[i][1], <<d[1]>> \o S[i][2]>>]
SumOver(S, F(_)) == IF Len(S) = 1 THEN F(S[1]) ELSE RSum([i \in 1..Len(S) |-> F(S[i])])
Without(d, I) == LET J == SelectSeq([i \in 1..Len(d) |-> i], LAMBDA i : i \notin I)
                 IN [i \in 1..Len(J) |-> d[J[i]]]
RECURSIVE RPow(_, _)
RPow(a, n) == IF n = 0 THEN "1" ELSE RMul(a, RPow(a, n - 1))

\* ---------------------------------------------------------------- functions
\* f = [c0, c1, c2]: x |-> c0 + sum_j c1[j] x[j] + c2 x[1]^2; its partials.
FnEval(f, x, d) ==
    CASE Len(d) = 0 -> RAdd(RAdd(f.c0, RMul(f.c2, RMul(x[1], x[1]))),
                            RSum([j \in 1..Len(f.c1) |-> RMul(f.c1[j], x[j])]))
      [] Len(d) = 1 -> RAdd(IF d[1] <= Len(f.c1) THEN f.c1[d[1]] ELSE "0",
                            IF d[1] = 1 THEN RMul("2", RMul(f.c2, x[1])) ELSE "0")
      [] d = <<1, 1>> -> RMul("2", f.c2)
      [] OTHER -> "0"
FnConst(c) == [c0 |-> c, c1 |-> <<>>, c2 |-> "0"]

\* ------------------------------------------------------------------ kernels
VSub(x, y) == [j \in 1..Len(x) |-> RSub(x[j], y[j])]
At(c, j) == IF Len(c) = 1 THEN c[1] ELSE c[j]

\* Derivatives of u |-> 2 / q with q = 2 + |u|^2: those of q (2 / q) = 2.
RECURSIVE RQ(_, _)
RQ(u, d) ==
    LET q == RAdd("2", RDot(u, u))
        n == Len(d)
        one == [i \in 1..n |-> RMul(RMul("2", u[d[i]]), RQ(u, Without(d, {i})))]
        P == SetToSeq({e \in (1..n) \X (1..n) : e[1] < e[2] /\ d[e[1]] = d[e[2]]})
        two == [i \in 1..Len(P) |-> RMul("2", RQ(u, Without(d, {P[i][1], P[i][2]})))]
    IN IF n = 0 THEN RDiv("2", q) ELSE RNeg(RDiv(RSum(one \o two), q))

\* Derivative of k with respect to the entries a of x and b of y at (x, y).
RECURSIVE KEval(_, _, _, _, _)
KEval(k, x, y, a, b) ==
    CASE k.k = "const" -> IF a = <<>> /\ b = <<>> THEN k.c ELSE "0"
      [] k.k = "lin" ->
            IF a = <<>> /\ b = <<>> THEN RDot(x, y)
            ELSE IF Len(a) > 1 \/ Len(b) > 1 THEN "0"
            ELSE IF b = <<>> THEN y[a[1]]
            ELSE IF a = <<>> THEN x[b[1]]
            ELSE IF a = b THEN "1" ELSE "0"
      [] k.k = "rq" ->   \* rational quadratic with alpha = 1: 2 / (2 + |x - y|^2)
            RMul(RPow("-1", Len(b)), RQ(VSub(x, y), a \o b))
      [] k.k = "delta" -> IF x = y THEN "1" ELSE "0"
      [] k.k = "scale" -> RMul(k.c, KEval(k.of, x, y, a, b))
      [] k.k = "stretch" ->
            LET s(v) == [j \in 1..Len(v) |-> RDiv(v[j], At(k.c, j))]
                d == a \o b
                F[i \in 0..Len(d)] == IF i = 0 THEN KEval(k.of, s(x), s(y), a, b) ELSE RDiv(F[i - 1], At(k.c, d[i]))
            IN F[Len(d)]
      [] k.k = "sum" -> RAdd(KEval(k.l, x, y, a, b), KEval(k.r, x, y, a, b))
      [] k.k = "prod" ->
            LET S == Splits(a)
                T == Splits(b)
                F(u) == LET H(v) == RMul(KEval(k.l, x, y, u[1], v[1]), KEval(k.r, x, y, u[2], v[2])) IN SumOver(T, H)
            IN SumOver(S, F)

\* --------------------------------------------------------- input transforms
\* Warps: x |-> the point at which the transformed process is evaluated;
\* WarpD(f, x, d): the pairs <<j, partial d of y_j>> that are not zero.
WarpAt(f, x) ==
    CASE f.k = "quad" -> [j \in 1..Len(x) |->
                            RAdd(f.c, RAdd(RMul(f.b, x[j]), RMul(f.a, RMul(x[j], x[j]))))]
      [] f.k = "rev"  -> [j \in 1..Len(x) |-> x[Len(x) + 1 - j]]
      [] f.k = "pair" -> <<x[1], RMul(x[1], x[1])>>
WarpD(f, x, d) ==
    CASE f.k = "quad" /\ Len(d) = 1 -> <<<<d[1], RAdd(f.b, RMul("2", RMul(f.a, x[d[1]])))>>>>
      [] f.k = "quad" /\ Len(d) = 2 /\ d[1] = d[2] -> <<<<d[1], RMul("2", f.a)>>>>
      [] f.k = "rev" /\ Len(d) = 1  -> <<<<Len(x) + 1 - d[1], "1">>>>
      [] f.k = "pair" /\ Len(d) = 1 -> <<<<1, "1">>, <<2, RMul("2", x[1])>>>>
      [] f.k = "pair" /\ Len(d) = 2 -> <<<<2, "2">>>>
      [] OTHER -> <<>>
\* The chain rule (Faa di Bruno): partial d of g(y(x)) is the sum over the
\* pairs <<e, c>> of c times partial e of g at y(x).
RECURSIVE Chain(_, _, _)
Chain(f, x, d) ==
    IF d = <<>> THEN <<<<<<>>, "1">>>>
    ELSE LET S == Splits(Tail(d))   \* the block with d[1] in it, and the rest
         IN FlattenSeq([i \in 1..Len(S) |->
              LET J == WarpD(f, x, <<d[1]>> \o S[i][1])
                  C == Chain(f, x, S[i][2])
              IN FlattenSeq([k \in 1..Len(J) |->
                   [l \in 1..Len(C) |-> <<<<J[k][1]>> \o C[l][1], RMul(J[k][2], C[l][2])>>]])])

\* ------------------------------------------------------ affine combinations
LAtom(s) == [c |-> "0", t |-> s :> "1"]
LScale(a, L) == [c |-> RMul(a, L.c), t |-> [s \in DOMAIN L.t |-> RMul(a, L.t[s])]]
LAdd(L, M) == [c |-> RAdd(L.c, M.c),
               t |-> [s \in DOMAIN L.t \cup DOMAIN M.t |->
                        IF s \notin DOMAIN M.t THEN L.t[s]
                        ELSE IF s \notin DOMAIN L.t THEN M.t[s] ELSE RAdd(L.t[s], M.t[s])]]
LShift(a, L) == [L EXCEPT !.c = RAdd(@, a)]
RECURSIVE LSum(_)
LSum(Ls) == IF Len(Ls) = 0 THEN [c |-> "0", t |-> [s \in {} |-> "0"]]
            ELSE LAdd(Ls[1], LSum(Tail(Ls)))

\* ---------------------------------------------------------------- structure
Inherited(G, m, p) == p \in G.meas[m].inh

\* Output paths of a process at plain inputs: <<>> for one output.
RECURSIVE Paths(_, _)
Paths(G, p) ==
    LET n == G.node[p] IN
    CASE n.op \in {"base", "lincomb"} -> <<<<>>>>
      [] n.op = "cross" -> FlattenSeq([i \in 1..Len(n.ps) |->
                              LET ps == Paths(G, n.ps[i]) IN [j \in 1..Len(ps) |-> <<i>> \o ps[j]]])
      [] OTHER -> Paths(G, n.p)

\* The output of q that stands where output o of p does.
SamePath(G, p, q, o) ==
    LET ps == Paths(G, p)
        qs == Paths(G, q)
    IN IF ps = qs \/ o \notin {ps[i] : i \in 1..Len(ps)} THEN o
       ELSE qs[CHOOSE i \in 1..Len(ps) : ps[i] = o]

\* The sites of process p at a structured input X, in order.
RECURSIVE Sites(_, _, _)
Sites(G, p, X) ==
    CASE X.k = "pts" ->
            LET os == Paths(G, p)
            IN FlattenSeq([i \in 1..Len(os) |->
                 [j \in 1..Len(X.x) |-> [p |-> p, o |-> os[i], x |-> X.x[j], d |-> <<>>]]])
      [] X.k = "fdd" ->
            LET ss == Sites(G, X.p, X.x)
            IN [j \in 1..Len(ss) |-> [p |-> p, o |-> <<-X.p>> \o ss[j].o, x |-> ss[j].x, d |-> <<>>]]
      [] X.k = "tup" -> FlattenSeq([i \in 1..Len(X.xs) |-> Sites(G, p, X.xs[i])])

\* ------------------------------------------------------------- expectations
RECURSIVE Expand(_, _, _)
RECURSIVE CovM(_, _, _, _)
RECURSIVE MeanV(_, _, _)

Mean1(G, m, s) == MeanV(G, m, <<s>>)[1]
Cov1(G, m, s, t) == CovM(G, m, <<s>>, <<t>>)[1][1]

\* The value of process s.p at s as an affine combination of atoms of m.
Expand(G, m, s) ==
    IF Inherited(G, m, s.p) THEN LAtom(s)
    ELSE LET n == G.node[s.p]
             To(p, x, d) == [p |-> p, o |-> s.o, x |-> x, d |-> d]
             D == s.d
         IN
    CASE n.op = "base" -> LAtom(s)
      [] n.op = "alias" -> Expand(G, m, To(n.p, s.x, D))
      [] n.op = "aff" ->   \* a(x) p(x) + b(x)
            LET S == Splits(D)
            IN LShift(FnEval(n.b, s.x, D),
                      LSum([i \in 1..Len(S) |-> LScale(FnEval(n.a, s.x, S[i][1]), Expand(G, m, To(n.p, s.x, S[i][2])))]))
      [] n.op = "add" ->   \* p + s q
            LAdd(Expand(G, m, To(n.p, s.x, D)),
                 LScale(n.s, Expand(G, m, [To(n.q, s.x, D) EXCEPT !.o = SamePath(G, n.p, n.q, s.o)])))
      [] n.op = "prod" ->  \* E[p] q + E[q] p - E[p] E[q] + residual
            LET T(d1, d2) ==
                    LET a == To(n.p, s.x, d1)
                        b == [To(n.q, s.x, d2) EXCEPT !.o = SamePath(G, n.p, n.q, s.o)]
                        ma == Mean1(G, m, a)
                        mb == Mean1(G, m, b)
                    IN LShift(RNeg(RMul(ma, mb)),
                         LAdd(LScale(ma, Expand(G, m, b)), LScale(mb, Expand(G, m, a))))
                S == Splits(D)
            IN LAdd(LAtom(s), LSum([i \in 1..Len(S) |-> T(S[i][1], S[i][2])]))
      [] n.op = "shift" ->
            Expand(G, m, To(n.p, [j \in 1..Len(s.x) |-> RSub(s.x[j], At(n.c, j))], D))
      [] n.op = "stretch" ->
            LET L == Expand(G, m, To(n.p, [j \in 1..Len(s.x) |-> RDiv(s.x[j], At(n.c, j))], D))
                F[i \in 0..Len(D)] == IF i = 0 THEN "1" ELSE RDiv(F[i - 1], At(n.c, D[i]))
            IN IF D = <<>> THEN L ELSE LScale(F[Len(D)], L)
      [] n.op = "select" ->
            LET y == [j \in 1..Len(n.dims) |-> s.x[n.dims[j]]]
                Es == SetToSeq({e \in [1..Len(D) -> 1..Len(n.dims)] : \A i \in 1..Len(D) : n.dims[e[i]] = D[i]})
            IN IF D = <<>> THEN Expand(G, m, To(n.p, y, D))
               ELSE LSum([i \in 1..Len(Es) |-> Expand(G, m, To(n.p, y, Es[i]))])
      [] n.op = "warp" ->
            LET y == WarpAt(n.f, s.x)
                C == Chain(n.f, s.x, D)
            IN IF D = <<>> THEN Expand(G, m, To(n.p, y, D))
               ELSE LSum([i \in 1..Len(C) |-> LScale(C[i][2], Expand(G, m, To(n.p, y, C[i][1])))])
      [] n.op = "diff" -> Expand(G, m, To(n.p, s.x, n.d \o D))
      [] n.op = "lincomb" ->  \* sum of coefficients times processes plus an independent part
            LSum(<<LAtom(s)>> \o [i \in 1..Len(n.terms) |->
                   LScale(n.terms[i].c, Expand(G, m, To(n.terms[i].p, s.x, D)))])
      [] n.op = "cross" ->
            LET h == Head(s.o)
            IN Expand(G, m, [p |-> IF h > 0 THEN n.ps[h] ELSE -h, o |-> Tail(s.o), x |-> s.x, d |-> D])

AtomsOf(Ls) == UNION {DOMAIN Ls[i].t : i \in 1..Len(Ls)}

\* Covariance of two atoms of m that are not inherited.
OwnCov(G, m, a, b) ==
    IF a.p # b.p THEN "0"
    ELSE LET n == G.node[a.p] IN
    CASE n.op \in {"base", "lincomb"} -> KEval(n.kern, a.x, b.x, a.d, b.d)
      [] n.op = "prod" ->  \* residual: k_pp k_qq + k_pq k_qp
            LET At2(s, p, d) == [p |-> p, o |-> IF p = n.p THEN s.o ELSE SamePath(G, n.p, p, s.o), x |-> s.x, d |-> d]
                S == Splits(a.d)
                R == Splits(b.d)
                T(d, e) == RAdd(
                    RMul(Cov1(G, m, At2(a, n.p, d[1]), At2(b, n.p, e[1])),
                         Cov1(G, m, At2(a, n.q, d[2]), At2(b, n.q, e[2]))),
                    RMul(Cov1(G, m, At2(a, n.p, d[1]), At2(b, n.q, e[1])),
                         Cov1(G, m, At2(a, n.q, d[2]), At2(b, n.p, e[2]))))
                F(d) == LET H(e) == T(d, e) IN SumOver(R, H)
            IN SumOver(S, F)
OwnMean(G, a) ==
    LET n == G.node[a.p]
    IN IF n.op \in {"base", "lincomb"} THEN FnEval(n.mean, a.x, a.d) ELSE "0"

\* Covariance matrix and mean vector of inherited atoms.
InhCov(G, m, A, B) ==
    LET M == G.meas[m]
        C == CovM(G, M.par, A, B)
    IN IF Len(M.S) = 0 THEN C
       ELSE MSub(C, MMul(MMul(CovM(G, M.par, A, M.S), M.Q), CovM(G, M.par, M.S, B)))
InhMean(G, m, A) ==
    LET M == G.meas[m]
        u == MeanV(G, M.par, A)
    IN IF Len(M.S) = 0 THEN u
       ELSE LET v == MulV(CovM(G, M.par, A, M.S), M.w) IN [i \in 1..Len(A) |-> RAdd(u[i], v[i])]

CovM(G, m, A, B) ==
    IF A = <<>> \/ B = <<>> THEN MZero(Len(A), Len(B)) ELSE
    LET LA == TLCEval([i \in 1..Len(A) |-> Expand(G, m, A[i])])
        LB == TLCEval([j \in 1..Len(B) |-> Expand(G, m, B[j])])
        aa == SetToSeq(AtomsOf(LA))
        bb == SetToSeq(AtomsOf(LB))
        ia == SelectSeq(aa, LAMBDA a : Inherited(G, m, a.p))
        ib == SelectSeq(bb, LAMBDA a : Inherited(G, m, a.p))
        ICraw == IF ia = <<>> \/ ib = <<>> THEN <<>> ELSE InhCov(G, m, ia, ib)
        IC == TLCEval([k \in 1..Len(ia) |-> TLCEval([l \in 1..Len(ib) |-> ICraw[k][l]])])
        PosA == TLCEval([a \in AtomsOf(LA) |-> IF Inherited(G, m, a.p) THEN CHOOSE k \in 1..Len(ia) : ia[k] = a ELSE 0])
        PosB == TLCEval([a \in AtomsOf(LB) |-> IF Inherited(G, m, a.p) THEN CHOOSE k \in 1..Len(ib) : ib[k] = a ELSE 0])
        AC(a, b) == IF PosA[a] > 0 /\ PosB[b] > 0 THEN IC[PosA[a]][PosB[b]]
                    ELSE IF PosA[a] > 0 \/ PosB[b] > 0 THEN "0"
                    ELSE OwnCov(G, m, a, b)
        ACM == LET F(k, l) == AC(aa[k], bb[l]) IN MkMat(Len(aa), Len(bb), F)
        RowA == LET F(i, k) == IF aa[k] \in DOMAIN LA[i].t THEN LA[i].t[aa[k]] ELSE "0"
                IN MkMat(Len(A), Len(aa), F)
        ColB == LET F(l, j) == IF bb[l] \in DOMAIN LB[j].t THEN LB[j].t[bb[l]] ELSE "0"
                IN MkMat(Len(bb), Len(B), F)
    IN IF aa = <<>> \/ bb = <<>> THEN MZero(Len(A), Len(B))
       ELSE MMul(MMul(RowA, ACM), ColB)

MeanV(G, m, A) ==
    LET LA == TLCEval([i \in 1..Len(A) |-> Expand(G, m, A[i])])
        ats == AtomsOf(LA)
        ia == SetToSeq({a \in ats : Inherited(G, m, a.p)})
        IM == IF ia = <<>> THEN <<>> ELSE InhMean(G, m, ia)
        AM == TLCEval([a \in ats |-> IF Inherited(G, m, a.p)
                                     THEN IM[CHOOSE k \in 1..Len(ia) : ia[k] = a]
                                     ELSE OwnMean(G, a)])
        V(L) == LET as == SetToSeq(DOMAIN L.t)
                IN RAdd(L.c, RDot([k \in 1..Len(as) |-> L.t[as[k]]], [k \in 1..Len(as) |-> AM[as[k]]]))
    IN TLCEval([i \in 1..Len(A) |-> V(LA[i])])

\* ------------------------------------------------------------------- noises
NoiseM(no, n) ==
    CASE no.f = "none" -> MZero(n, n)
      [] no.f = "scalar" -> MDiagOf([i \in 1..n |-> no.v])
      [] no.f = "vec" -> MDiagOf(no.v)
      [] no.f = "mat" -> no.v
\* Block-diagonal stacking of square matrices.
RECURSIVE BlockDiag(_)
BlockDiag(Ms) ==
    IF Len(Ms) = 0 THEN <<>>
    ELSE LET A == Ms[1]
             B == BlockDiag(Tail(Ms))
             n == Rows(A)
             F(i, j) == IF i <= n /\ j <= n THEN A[i][j]
                        ELSE IF i > n /\ j > n THEN B[i - n][j - n] ELSE "0"
         IN MkMat(n + Rows(B), n + Rows(B), F)

\* ------------------------------------------------------------- observations
\* parts: a sequence of [p, X, noise] (and y); stacked in order.
PSites(G, parts) == FlattenSeq([i \in 1..Len(parts) |-> Sites(G, parts[i].p, parts[i].X)])
PNoise(G, parts) == BlockDiag([i \in 1..Len(parts) |->
                        NoiseM(parts[i].noise, Len(Sites(G, parts[i].p, parts[i].X)))])
PData(parts) == FlattenSeq([i \in 1..Len(parts) |-> parts[i].y])
SubV(v, idx) == [i \in 1..Len(idx) |-> v[idx[i]]]
SubM(A, idx) == LET F(i, j) == A[idx[i]][idx[j]] IN MkMat(Len(idx), Len(idx), F)

\* The data that is there: [S, N, y] without the missing entries.
Available(G, parts) ==
    LET y == PData(parts)
        idx == SelectSeq([i \in 1..Len(y) |-> i], LAMBDA i : y[i] # "nan")
    IN [S |-> SubV(PSites(G, parts), idx), N |-> SubM(PNoise(G, parts), idx), y |-> SubV(y, idx)]

Ln2Pi == RLn("6283185307179586476925286766559005768394/1000000000000000000000000000000000000000")
Vsub(u, v) == [i \in 1..Len(u) |-> RSub(u[i], v[i])]

\* log N(y; mu, K), with ok iff K is safely positive definite.
PivOK(g, eps) == g.ok /\ RLe(eps, RMin(g.piv))
LogN(y, mu, K) ==
    IF Len(y) = 0 THEN [ok |-> TRUE, v |-> "0"]
    ELSE LET g == GJ(K)
             r == Vsub(y, mu)
         IN IF ~PivOK(g, "1/10000") THEN [ok |-> FALSE, v |-> "0"]
            ELSE [ok |-> TRUE,
                  v |-> RMul("-1/2", RAdd(RSumLn(g.piv),
                            RAdd(RMul(ToString(Len(y)), Ln2Pi), RDot(r, MulV(g.inv, r)))))]

JointLogpdf(G, m, parts) ==
    LET D == Available(G, parts)
    IN LogN(D.y, MeanV(G, m, D.S), MAdd(CovM(G, m, D.S, D.S), D.N))

\* What the inducing-point approximations are made of.
Pseudo(G, m, kind, us, parts) ==
    LET D == Available(G, parts)
        n == Len(D.y)
        Sz == PSites(G, us)
        Kz == MAdd(CovM(G, m, Sz, Sz), PNoise(G, us))
        Kzx == CovM(G, m, Sz, D.S)
        gz == GJ(Kz)
        ok1 == PivOK(gz, "1/1000")
        Qxx == MMul(MMul(MT(Kzx), gz.inv), Kzx)
        gap == [i \in 1..n |-> RSub(Cov1(G, m, D.S[i], D.S[i]), Qxx[i][i])]
        Kn == [i \in 1..n |-> IF kind = "fitc" THEN RAdd(D.N[i][i], gap[i]) ELSE D.N[i][i]]
        ok2 == ok1 /\ \A i \in 1..n : RLe("1/1000", Kn[i]) /\ RLe("1/1000", D.N[i][i])
        iKn == TLCEval([i \in 1..n |-> RDiv("1", Kn[i])])
        KzxN == LET F(i, j) == RMul(Kzx[i][j], iKn[j]) IN MkMat(Len(Sz), n, F)
        M == MAdd(Kz, MMul(KzxN, MT(Kzx)))
        gM == GJ(M)
        mx == MeanV(G, m, D.S)
        fit == LogN(D.y, mx, MAdd(Qxx, MDiagOf(Kn)))
    IN IF ~ok2 THEN [ok |-> FALSE, S |-> <<>>, Q |-> <<>>, w |-> <<>>, elbo |-> "0"]
       ELSE IF n = 0 THEN [ok |-> TRUE, S |-> <<>>, Q |-> <<>>, w |-> <<>>, elbo |-> "0"]
       ELSE [ok |-> PivOK(gM, "1/1000") /\ fit.ok, S |-> Sz,
             Q |-> MSub(gz.inv, gM.inv),
             w |-> MulV(gM.inv, MulV(KzxN, Vsub(D.y, mx))),
             elbo |-> IF kind # "vfe" THEN fit.v
                      ELSE RSub(fit.v, RDiv(RSum([i \in 1..n |-> RMul(gap[i], iKn[i])]), "2"))]

\* The measure that conditioning m on an observation gives.
\* ok: well enough conditioned for floating-point values to be compared.
Conditioned(G, m, obs, inh) ==
    LET base == [par |-> m, inh |-> inh, kind |-> obs.kind]
        Rec(S, Q, w, ok) == [par |-> m, inh |-> inh, kind |-> obs.kind, S |-> S, Q |-> Q, w |-> w,
                             ok |-> ok /\ G.meas[m].ok]
    IN IF obs.kind = "exact"
       THEN LET D == Available(G, obs.parts)
                g == GJ(MAdd(CovM(G, m, D.S, D.S), D.N))
            IN IF Len(D.y) = 0 THEN Rec(<<>>, <<>>, <<>>, TRUE)
               ELSE IF ~PivOK(g, "1/1000") THEN Rec(<<>>, <<>>, <<>>, FALSE)
               ELSE Rec(D.S, g.inv, MulV(g.inv, Vsub(D.y, MeanV(G, m, D.S))), TRUE)
       ELSE LET P == Pseudo(G, m, obs.kind, obs.us, obs.parts)
            IN Rec(P.S, P.Q, P.w, P.ok)
=============================================================================
