------------------------------- MODULE Stheno ------------------------------
(* stheno as a state machine: measures, processes, names, the default      *)
(* measure, conditioning, and every query a user can make.  One operation   *)
(* per public call; Do(st, ev) is the state after the call and whether it   *)
(* is accepted, Answer(st, ev) what a query must return.                    *)
(*                                                                          *)
(* State:                                                                   *)
(*   node  how each process was constructed (see Law)                       *)
(*   meas  the measures (see Law)                                           *)
(*   ml    for each process, the measures it belongs to; ml[p][1] is the    *)
(*         measure it was constructed in                                    *)
(*   names for each measure, the names in it and the process of each        *)
(*   stk   the measures whose `with` blocks are open, innermost last        *)
EXTENDS Law

EmptyFn == [s \in {} |-> 0]
Init0 == [node |-> <<>>, meas |-> <<>>, ml |-> <<>>, names |-> <<>>, stk |-> <<>>]

InM(st, p, m) == \E i \in 1..Len(st.ml[p]) : st.ml[p][i] = m
Home(st, p) == st.ml[p][1]
Default(st) == IF st.stk = <<>> THEN 0 ELSE st.stk[Len(st.stk)]
Members(st, m) == {p \in 1..Len(st.node) : InM(st, p, m)}
SameHome(st, ps) == \A i \in 1..Len(ps) : Home(st, ps[i]) = Home(st, ps[1])
Shared(st, ps) == SelectSeq(st.ml[ps[1]], LAMBDA m : \A i \in 1..Len(ps) : InM(st, ps[i], m))

NoCond == [par |-> 0, inh |-> {}, kind |-> "prior", S |-> <<>>, Q |-> <<>>, w |-> <<>>, ok |-> TRUE]
NewMeasure(st, M) == [st EXCEPT !.meas = Append(@, M), !.names = Append(@, EmptyFn)]
AddP(st, n, ms) == [st EXCEPT !.node = Append(@, n), !.ml = Append(@, ms)]

Taken(st, m, p, name) == name \in DOMAIN st.names[m] /\ st.names[m][name] # p
SetName(f, p, name) ==   \* the old name of p is freed
    LET D == {n \in DOMAIN f : f[n] # p} \cup {name}
    IN [n \in D |-> IF n = name THEN p ELSE f[n]]
NameOf(st, m, p) == LET N == {n \in DOMAIN st.names[m] : st.names[m][n] = p}
                    IN IF N = {} THEN "" ELSE CHOOSE n \in N : TRUE

Yes(st) == [st |-> st, ok |-> TRUE]
No(st) == [st |-> st, ok |-> FALSE]

\* ---------------------------------------------------------------- operations
DoGP(st, ev) ==
    LET fresh == ev.m = 0 /\ Default(st) = 0
        s1 == IF fresh THEN NewMeasure(st, NoCond) ELSE st
        m == IF ev.m # 0 THEN ev.m ELSE IF fresh THEN Len(s1.meas) ELSE Default(st)
        p == Len(st.node) + 1
        s2 == AddP(s1, [op |-> "base", mean |-> ev.mean, kern |-> ev.kern], <<m>>)
    IN IF ev.name = "" THEN Yes(s2)
       ELSE IF ev.name \in DOMAIN s1.names[m] THEN No(st)
       ELSE Yes([s2 EXCEPT !.names[m] = SetName(@, p, ev.name)])

Neg1 == FnConst("-1")
Zero == FnConst("0")
One == FnConst("1")
FnNeg(f) == [c0 |-> RNeg(f.c0), c1 |-> [j \in 1..Len(f.c1) |-> RNeg(f.c1[j])], c2 |-> RNeg(f.c2)]
Aff(p, a, b) == [op |-> "aff", p |-> p, a |-> a, b |-> b]
UnNode(p, f) ==
    CASE f.k = "-p" -> Aff(p, Neg1, Zero)
      [] f.k \in {"p+c", "c+p"} -> Aff(p, One, FnConst(f.c))
      [] f.k = "p-c" -> Aff(p, One, FnConst(RNeg(f.c)))
      [] f.k = "c-p" -> Aff(p, Neg1, FnConst(f.c))
      [] f.k \in {"p*c", "c*p"} -> Aff(p, FnConst(f.c), Zero)
      [] f.k = "p/c" -> Aff(p, FnConst(RDiv("1", f.c)), Zero)
      [] f.k \in {"p+f", "f+p"} -> Aff(p, One, f.f)
      [] f.k = "f-p" -> Aff(p, Neg1, f.f)
      [] f.k \in {"p*f", "f*p"} -> Aff(p, f.f, Zero)
      [] f.k = "shift" -> [op |-> "shift", p |-> p, c |-> f.c]
      [] f.k = "stretch" -> [op |-> "stretch", p |-> p, c |-> f.c]
      [] f.k = "select" -> [op |-> "select", p |-> p, dims |-> f.dims]
      [] f.k = "warp" -> [op |-> "warp", p |-> p, f |-> f.f]
      [] f.k \in {"diff", "diff_approx"} -> [op |-> "diff", p |-> p, d |-> [i \in 1..(IF "n" \in DOMAIN f THEN f.n ELSE 1) |-> f.d]]
DoUn(st, ev) == Yes(AddP(st, UnNode(ev.p, ev.f), st.ml[ev.p]))

BinNode(k, p, q) ==
    CASE k = "+" -> [op |-> "add", p |-> p, q |-> q, s |-> "1"]
      [] k = "-" -> [op |-> "add", p |-> p, q |-> q, s |-> "-1"]
      [] k = "*" -> [op |-> "prod", p |-> p, q |-> q]
DoBin(st, ev) ==
    IF ~SameHome(st, <<ev.p, ev.q>>) THEN No(st)
    ELSE Yes(AddP(st, BinNode(ev.k, ev.p, ev.q), Shared(st, <<ev.p, ev.q>>)))
DoCross(st, ev) ==
    IF ~SameHome(st, ev.ps) THEN No(st)
    ELSE Yes(AddP(st, [op |-> "cross", ps |-> ev.ps], Shared(st, ev.ps)))
DoCopy(st, ev) ==
    IF ~InM(st, ev.p, ev.m) THEN No(st) ELSE Yes(AddP(st, [op |-> "alias", p |-> ev.p], <<ev.m>>))
DoCustom(st, ev) ==
    Yes(AddP(st, [op |-> "lincomb", terms |-> ev.terms, mean |-> ev.mean, kern |-> ev.kern], <<ev.m>>))

ObsPs(obs) == [i \in 1..Len(obs.parts) |-> obs.parts[i].p]
UsPs(obs) == [i \in 1..Len(obs.us) |-> obs.us[i].p]
\* Joint observations are made of processes with one home measure that all
\* belong to the measure asked.
ObsOK(st, m, obs) ==
    /\ SameHome(st, ObsPs(obs)) /\ \A i \in 1..Len(obs.parts) : InM(st, obs.parts[i].p, m)
    /\ obs.kind # "exact" => SameHome(st, UsPs(obs)) /\ \A i \in 1..Len(obs.us) : InM(st, obs.us[i].p, m)
DoCond(st, ev) ==
    IF ~ObsOK(st, ev.m, ev.obs) THEN No(st)
    ELSE LET inh == Members(st, ev.m)
             s1 == NewMeasure(st, Conditioned(st, ev.m, ev.obs, inh))
             m2 == Len(s1.meas)
         IN Yes([s1 EXCEPT !.ml = [p \in 1..Len(@) |-> IF p \in inh THEN Append(@[p], m2) ELSE @[p]]])

DoName(st, ev) ==    \* p.name = name: in all measures of p, or in none
    IF \E i \in 1..Len(st.ml[ev.p]) : Taken(st, st.ml[ev.p][i], ev.p, ev.name) THEN No(st)
    ELSE Yes([st EXCEPT !.names = [m \in 1..Len(@) |->
                 IF InM(st, ev.p, m) THEN SetName(@[m], ev.p, ev.name) ELSE @[m]]])
DoMName(st, ev) ==
    IF Taken(st, ev.m, ev.p, ev.name) THEN No(st)
    ELSE Yes([st EXCEPT !.names[ev.m] = SetName(@, ev.p, ev.name)])

Creates == {"gp", "un", "bin", "cross", "copy", "custom"}
Do(st, ev) ==
    CASE ev.op = "measure" -> Yes(NewMeasure(st, NoCond))
      [] ev.op = "gp" -> DoGP(st, ev)
      [] ev.op = "un" -> DoUn(st, ev)
      [] ev.op = "bin" -> DoBin(st, ev)
      [] ev.op = "cross" -> DoCross(st, ev)
      [] ev.op = "copy" -> DoCopy(st, ev)
      [] ev.op = "custom" -> DoCustom(st, ev)
      [] ev.op = "cond" -> DoCond(st, ev)
      [] ev.op = "name" -> DoName(st, ev)
      [] ev.op = "mname" -> DoMName(st, ev)
      [] ev.op = "enter" -> Yes([st EXCEPT !.stk = Append(@, ev.m)])
      [] ev.op = "exit" -> Yes([st EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)])
      [] OTHER -> Yes(st)     \* queries change nothing

\* ------------------------------------------------------------------- answers
\* A distribution: mean vector and covariance matrix.
FddLaw(st, m, d) ==
    LET S == Sites(st, d.p, d.X)
    IN [mean |-> MeanV(st, m, S), var |-> MAdd(CovM(st, m, S, S), NoiseM(d.noise, Len(S)))]
TakeLaw(N, idx) == [mean |-> SubV(N.mean, idx), var |-> SubM(N.var, idx)]
MaskIdx(mask) == SelectSeq([i \in 1..Len(mask) |-> i], LAMBDA i : mask[i] = 1)

V(ok, v) == [ok |-> ok, skip |-> FALSE, v |-> v]
Skip == [ok |-> TRUE, skip |-> TRUE, v |-> <<>>]
Vals(x) == [i \in 1..Len(x) |-> <<x[i]>>]

DropNan(y) == SelectSeq([i \in 1..Len(y) |-> i], LAMBDA i : y[i] # "nan")
NLogpdf(N, y) ==   \* y: one column; missing entries do not count
    LET idx == DropNan(y) IN LogN(SubV(y, idx), SubV(N.mean, idx), SubM(N.var, idx))

Pos(r) == RMax(r, "0")
\* What a distribution with law N must answer when asked for a.
Ask(N, a) ==
    LET n == Len(N.mean)
        vd == Diag(N.var)
        se(s) == [i \in 1..n |-> RAdd(N.mean[i], RMul(s, RMul("49/25", RSqrt(Pos(vd[i])))))]
    IN
    CASE a.a = "mean" -> V(TRUE, ColVec(N.mean))
      [] a.a = "var" -> V(TRUE, N.var)
      [] a.a = "var_diag" -> V(TRUE, vd)
      [] a.a = "mean_var" -> V(TRUE, <<ColVec(N.mean), N.var>>)
      [] a.a = "marginals" -> V(TRUE, <<N.mean, vd>>)
      [] a.a = "bounds" -> V(TRUE, <<N.mean, se("-1"), se("1")>>)
      [] a.a = "dim" -> V(TRUE, ToString(n))
      [] a.a = "m2" -> V(TRUE, LET F(i, j) == RAdd(N.var[i][j], RMul(N.mean[i], N.mean[j])) IN MkMat(n, n, F))
      [] a.a = "diagonalise" -> V(TRUE, <<ColVec(N.mean), MDiagOf(vd)>>)
      [] a.a = "logpdf" ->
            LET L == [c \in 1..Len(a.y) |-> NLogpdf(N, a.y[c])]
            IN IF \A c \in 1..Len(L) : L[c].ok
               THEN V(TRUE, IF a.scalar THEN L[1].v ELSE [c \in 1..Len(L) |-> L[c].v])
               ELSE Skip
      [] a.a = "affine" -> V(TRUE, LET F(i, j) == RMul("4", N.var[i][j])   \* 2 d + 1
                                   IN <<ColVec([i \in 1..n |-> RAdd("1", RMul("2", N.mean[i]))]), MkMat(n, n, F)>>)
      [] a.a = "double" -> V(TRUE, LET F(i, j) == RMul("2", N.var[i][j])   \* d + d: independent of each other
                                   IN <<ColVec([i \in 1..n |-> RMul("2", N.mean[i])]), MkMat(n, n, F)>>)
      [] a.a = "kl" -> IF LogN(N.mean, N.mean, N.var).ok THEN V(TRUE, "0") ELSE Skip   \* with itself
      [] a.a = "draws" ->   \* not further than eight standard deviations from the mean
            LET sd == [i \in 1..n |-> RAdd("1/1000", RMul("8", RSqrt(Pos(RAdd(vd[i], a.extra)))))]
            IN V(TRUE, [shape |-> <<n, a.n>>, lo |-> [i \in 1..n |-> RSub(N.mean[i], sd[i])],
                        hi |-> [i \in 1..n |-> RAdd(N.mean[i], sd[i])]])
      [] a.a = "entropy" ->
            LET L == LogN(N.mean, N.mean, N.var)
            IN IF L.ok THEN V(TRUE, RSub(RDiv(ToString(n), "2"), L.v)) ELSE Skip

\* ---------------------------------------------- sizes of structured inputs
RECURSIVE Nel(_)
Nel(X) == CASE X.k = "pts" -> Len(X.x)
            [] X.k = "fdd" -> Nel(X.x)
            [] X.k = "tup" -> IF X.xs = <<>> THEN 0 ELSE Nel(X.xs[1]) + Nel([X EXCEPT !.xs = Tail(@)])
\* Number of outputs of a kernel: 0 if it cannot be determined, -1 if its parts disagree.
Merge(d, e) == IF d = -1 \/ e = -1 THEN -1 ELSE IF d = 0 THEN e ELSE IF e = 0 \/ d = e THEN d ELSE -1
RECURSIVE KDim(_, _)
KDim(st, k) ==
    CASE k.k = "prim" -> 1
      [] k.k = "mok" -> Len(FlattenSeq([i \in 1..Len(k.ps) |-> Paths(st, k.ps[i])]))
      [] k.k = "proc" -> Len(Paths(st, k.p))
      [] k.k = "adk" -> 0
      [] k.k = "wrap" -> KDim(st, k.of)
      [] k.k \in {"join", "sub"} -> Merge(KDim(st, k.l), KDim(st, k.r))
      [] k.k = "post" -> Merge(KDim(st, k.of), Merge(KDim(st, k.l), KDim(st, k.r)))
RECURSIVE KSize(_, _, _)
KSize(st, k, X) ==   \* -1: not determined
    CASE X.k = "pts" -> LET d == KDim(st, k) IN IF d <= 0 THEN -1 ELSE d * Len(X.x)
      [] X.k = "fdd" -> Len(Sites(st, X.p, X.x))
      [] X.k = "tup" -> IF X.xs = <<>> THEN 0
                        ELSE LET a == KSize(st, k, X.xs[1])
                                 b == KSize(st, k, [X EXCEPT !.xs = Tail(@)])
                             IN IF a = -1 \/ b = -1 THEN -1 ELSE a + b

\* --------------------------------------------- what a process says of itself
\* Covariances that certainly depend on differences of inputs only.
RECURSIVE KStat(_)
KStat(k) == CASE k.k \in {"rq", "const", "delta"} -> TRUE
              [] k.k \in {"scale", "stretch"} -> KStat(k.of)
              [] k.k \in {"sum", "prod"} -> KStat(k.l) /\ KStat(k.r)
              [] OTHER -> FALSE
RECURSIVE MustStat(_, _)
MustStat(st, p) ==
    LET n == st.node[p]
    IN CASE n.op = "base" -> KStat(n.kern)
         [] n.op = "aff" -> n.a.c1 = <<>> /\ n.a.c2 = "0" /\ MustStat(st, n.p)
         [] n.op \in {"shift", "stretch", "select"} -> MustStat(st, n.p)
         [] OTHER -> FALSE
\* Whether the covariance in measure m is the same for the inputs moved by c.
Moved(X, c) == [X EXCEPT !.x = [i \in 1..Len(@) |-> [j \in 1..Len(@[i]) |-> RAdd(@[i][j], c[j])]]]
MayStat(st, m, p, X, c) ==
    LET A == CovM(st, m, Sites(st, p, X), Sites(st, p, X))
        B == CovM(st, m, Sites(st, p, Moved(X, c)), Sites(st, p, Moved(X, c)))
    IN \A i \in 1..Len(A) : \A j \in 1..Len(A) : RSub(A[i][j], B[i][j]) = "0"

\* Queries of laws need a measure whose values floating point can reproduce.
Num(st, m, v) == IF st.meas[m].ok THEN v ELSE Skip

RECURSIVE Answer(_, _)
\* Sum of all numbers of an answer.
VSum(v) == RSum(v)
MSum(M) == RSum([i \in 1..Len(M) |-> RSum(M[i])])
AskTotal(a, v) ==
    CASE a \in {"mean", "var", "m2"} -> MSum(v)
      [] a = "var_diag" -> VSum(v)
      [] a = "mean_var" -> RAdd(MSum(v[1]), MSum(v[2]))
      [] a = "marginals" -> RAdd(VSum(v[1]), VSum(v[2]))
      [] a = "bounds" -> RSum(<<VSum(v[1]), VSum(v[2]), VSum(v[3])>>)
      [] a \in {"logpdf", "entropy"} -> v
Total(ev, v) ==
    CASE ev.op \in {"mean", "cov", "elw"} -> MSum(v)
      [] ev.op = "fdd" -> AskTotal(ev.asks[1].a, v[1].v)
      [] ev.op \in {"logpdf", "elbo"} -> v
\* The answer to the last event of a program.
RECURSIVE After(_, _)
After(st, evs) == IF evs = <<>> THEN st ELSE After(TLCEval(Do(st, Head(evs)).st), Tail(evs))
Run(evs) == LET q == evs[Len(evs)]
                A == TLCEval(Answer(After(Init0, SubSeq(evs, 1, Len(evs) - 1)), q))
                sk == A.skip \/ (q.op = "fdd" /\ A.ok /\ A.v[1].skip)
            IN [skip |-> sk, v |-> IF sk THEN "0" ELSE Total(q, A.v)]
\* Its derivative, from two programs that differ by 2 h in a parameter.
GradOf(ev) == LET a == Run(ev.plus)
                  b == Run(ev.minus)
              IN IF a.skip \/ b.skip THEN Skip ELSE V(TRUE, RDiv(RSub(a.v, b.v), RMul("2", ev.h)))

Answer(st, ev) ==
    CASE ev.op = "mean" ->
            IF ~InM(st, ev.p, ev.m) THEN V(FALSE, <<>>)
            ELSE Num(st, ev.m, V(TRUE, ColVec(MeanV(st, ev.m, Sites(st, ev.p, ev.X)))))
      [] ev.op = "cov" ->
            IF ~(InM(st, ev.p, ev.m) /\ InM(st, ev.q, ev.m)) THEN V(FALSE, <<>>)
            ELSE Num(st, ev.m, V(TRUE, CovM(st, ev.m, Sites(st, ev.p, ev.X), Sites(st, ev.q, ev.Y))))
      [] ev.op = "elw" ->
            LET A == Sites(st, ev.p, ev.X)
                B == Sites(st, ev.q, ev.Y)
            IN Num(st, ev.m, V(TRUE, ColVec([i \in 1..Len(A) |-> Cov1(st, ev.m, A[i], B[i])])))
      [] ev.op = "rule" ->    \* a process added with rules lc cov(p, .) and rc cov(., p); r is it or 2 r + s
            LET A == Sites(st, ev.p, ev.X)
                B == Sites(st, ev.i, ev.Y)
                C == CovM(st, ev.m, A, B)
                R == CovM(st, ev.m, B, A)
                Sum(c, k, D) == LET F(i, j) == RAdd(RMul(c, k[i][j]), D[i][j]) IN MkMat(Rows(k), Cols(k), F)
                Z(k) == MZero(Rows(k), Cols(k))
                S == Sites(st, ev.s, ev.X)
            IN Num(st, ev.m, V(TRUE,
                 CASE ev.side = "left" -> Sum(ev.lc, C, Z(C))
                   [] ev.side = "right" -> Sum(ev.rc, R, Z(R))
                   [] ev.side = "left2" -> Sum(RMul("2", ev.lc), C, CovM(st, ev.m, S, B))
                   [] ev.side = "right2" -> Sum(RMul("2", ev.lc), R, CovM(st, ev.m, B, S))))
      [] ev.op = "fdd" ->     \* p(X, noise), or m(p(X, noise)) if ev.m # 0
            LET m == IF ev.m = 0 THEN Home(st, ev.p) ELSE ev.m
            IN IF ~InM(st, ev.p, m) THEN V(FALSE, <<>>)
               ELSE Num(st, m, LET N == FddLaw(st, m, ev) IN V(TRUE, [i \in 1..Len(ev.asks) |-> Ask(N, ev.asks[i])]))
      [] ev.op = "take" ->
            LET m == Home(st, ev.p)
                N == TakeLaw(FddLaw(st, m, ev), MaskIdx(ev.mask))
            IN Num(st, m, V(TRUE, [i \in 1..Len(ev.asks) |-> Ask(N, ev.asks[i])]))
      [] ev.op = "badtake" -> V(FALSE, <<>>)
      [] ev.op = "logpdf" ->  \* m.logpdf of exact observations
            IF ~ObsOK(st, ev.m, ev.obs) THEN V(FALSE, <<>>)
            ELSE LET L == JointLogpdf(st, ev.m, ev.obs.parts)
                 IN IF L.ok THEN Num(st, ev.m, V(TRUE, L.v)) ELSE Skip
      [] ev.op = "elbo" ->
            IF ~ObsOK(st, ev.m, ev.obs) THEN V(FALSE, <<>>)
            ELSE LET P == Pseudo(st, ev.m, ev.obs.kind, ev.obs.us, ev.obs.parts)
                 IN IF P.ok THEN Num(st, ev.m, V(TRUE, P.elbo)) ELSE Skip
      [] ev.op = "nondiag" -> V(FALSE, <<>>)   \* inducing points with correlated noise
      [] ev.op = "size" -> V(TRUE, ToString(Len(Sites(st, ev.p, ev.X))))
      [] ev.op = "nel" -> V(TRUE, ToString(Nel(ev.X)))
      [] ev.op = "kdim" -> LET d == KDim(st, ev.kern) IN V(d # -1, IF d = 0 THEN "None" ELSE ToString(d))
      [] ev.op = "ksize" -> LET n == KSize(st, ev.kern, ev.X) IN V(n # -1, ToString(n))
      [] ev.op = "dimy" -> V(TRUE, ToString(Len(Paths(st, ev.p))))
      [] ev.op = "sample" ->  \* joint draws of distributions, with extra noise
            LET m == IF ev.m = 0 THEN Home(st, ev.ds[1].p) ELSE ev.m
            IN IF ~(SameHome(st, [i \in 1..Len(ev.ds) |-> ev.ds[i].p]) /\ \A i \in 1..Len(ev.ds) : InM(st, ev.ds[i].p, m))
               THEN V(FALSE, <<>>)
               ELSE LET S == PSites(st, ev.ds)
                        K == MAdd(CovM(st, m, S, S), MAdd(PNoise(st, ev.ds), NoiseM(ev.extra, Len(S))))
                    IN Num(st, m, V(TRUE, [sizes |-> [i \in 1..Len(ev.ds) |-> Len(Sites(st, ev.ds[i].p, ev.ds[i].X))],
                                           mean |-> MeanV(st, m, S), var |-> K]))
      [] ev.op = "grad" -> GradOf(ev)
      [] ev.op = "illegal" -> V(FALSE, <<>>)   \* calls no state accepts
      [] ev.op = "same" -> V(TRUE, "1")        \* an observed equality
      [] ev.op = "show" -> V(TRUE, "ok")       \* as text, in whatever way and at whatever time
      [] ev.op = "stationary" ->
            LET m == Home(st, ev.p)
            IN Num(st, m, V(TRUE, [must |-> MustStat(st, ev.p), may |-> MayStat(st, m, ev.p, ev.X, ev.c)]))
      [] ev.op = "getgp" -> IF ev.name \in DOMAIN st.names[ev.m]
                            THEN V(TRUE, ToString(st.names[ev.m][ev.name])) ELSE V(FALSE, <<>>)
      [] ev.op = "getname" -> IF NameOf(st, ev.m, ev.p) # "" THEN V(TRUE, NameOf(st, ev.m, ev.p)) ELSE V(FALSE, <<>>)
      [] ev.op = "gpname" -> IF NameOf(st, Home(st, ev.p), ev.p) # ""
                             THEN V(TRUE, NameOf(st, Home(st, ev.p), ev.p)) ELSE V(FALSE, <<>>)
      [] ev.op = "default" -> V(TRUE, ToString(Default(st)))
      [] ev.op = "home" -> V(TRUE, ToString(Home(st, ev.p)))
      [] ev.op = "members" -> V(TRUE, Members(st, ev.m))

\* The answers that are not numbers.
Symbolic == {"getgp", "getname", "gpname", "default", "home", "members", "same", "size", "dimy", "nel", "kdim", "ksize", "show"}
Queries == {"mean", "cov", "elw", "rule", "fdd", "take", "badtake", "logpdf", "elbo", "nondiag", "illegal", "sample", "grad", "stationary"} \cup Symbolic
=============================================================================
