---------------------------- MODULE MCNormalAlg -----------------------------
(* All expressions of a bounded depth over a few normals, and the laws that   *)
(* their means, covariances and divergences obey.                             *)
EXTENDS Normal, Json, IOUtils
MaxN == atoi(IOEnv.MAXN)
VARIABLES ns, h
vars == <<ns, h>>
View == [i \in 1..Len(ns) |-> <<ns[i].mean, ns[i].var>>]
New(mean, var, mf) == [op |-> "new", mean |-> mean, var |-> var, mform |-> mf, vform |-> "np"]
Start == << New(<<"1", "-1/2">>, <<<<"2", "1/2">>, <<"1/2", "1">>>>, "col"),
            New(<<"0", "0">>, <<<<"1", "-1">>, <<"-1", "3/2">>>>, "omit"),
            New(<<"3">>, <<<<"1/2">>>>, "col") >>
A2 == <<<<"1", "2">>, <<"0", "-1">>>>
A12 == <<<<"1", "-1">>>>
A21 == <<<<"2">>, <<"1">>>>
Dim(i) == Len(ns[i].mean)
Con == {<<"2">>, <<"-1/2">>}
ConV(n) == Con \cup (IF n = 2 THEN {<<"3", "-1">>} ELSE {})
Ar(k, i) == [op |-> "arith", k |-> k, a |-> i]
Events ==
    LET I == {i \in 1..Len(ns) : i >= Len(ns) - 2 \/ i <= 3} IN
    {Ar(k, i) @@ [b |-> j] : k \in {"n+n", "n-n"}, i \in I, j \in {j \in I : TRUE}}
    \cup UNION {{Ar(k, i) @@ [c |-> c] : k \in {"n+c", "c+n", "n-c", "c-n", "n*c", "c*n", "n/c"}, c \in ConV(Dim(i))} : i \in I}
    \cup {Ar(k, i) : k \in {"-n", "diagonalise"}, i \in I}
    \cup UNION {{Ar("lmatmul", i) @@ [A |-> A] : A \in IF Dim(i) = 2 THEN {A2, A12} ELSE {A21}} : i \in I}
    \cup UNION {{Ar("rmatmul", i) @@ [A |-> A] : A \in IF Dim(i) = 2 THEN {A2, A21} ELSE {A12}} : i \in I}
OK(ev) == "b" \in DOMAIN ev => Dim(ev.a) = Dim(ev.b)
Init == h = Start /\ ns = TLCEval(NDo(NDo(NDo(<<>>, Start[1]), Start[2]), Start[3]))
Next == /\ Len(ns) < MaxN
        /\ \E ev \in Events :
             /\ OK(ev)
             /\ ns' = TLCEval(NDo(ns, ev)) /\ h' = Append(h, ev)
             /\ PrintT("@@" \o ToJson([kind |-> "PROG", h |-> h']))
Same(a, b) == a.mean = b.mean /\ a.var = b.var
Top == ns[Len(ns)]
Others == {i \in 1..Len(ns) : Dim(i) = Dim(Len(ns))}
Eps == "1/1000000000000000000"
\* Covariances are symmetric and positive semi-definite.
PSD == /\ Symm(Top.var)
       /\ \A i \in 1..Len(Top.mean) : RLe("0", Top.var[i][i])
       /\ RLe("0", Det(Top.var))
\* Sums commute, subtraction is addition of the negation, scaling and matrices distribute.
Ev(k, x) == Arith(<<Top, x>>, [k |-> k, a |-> 1, b |-> 2])
Algebra == \A i \in Others :
    LET a == Top
        b == ns[i]
        n == Len(a.mean)
        A == IF n = 2 THEN A2 ELSE A21
    IN /\ Same(NAdd(a, b, "1"), NAdd(b, a, "1"))
       /\ Same(Arith(<<a, b>>, [k |-> "n-n", a |-> 1, b |-> 2]),
               NAdd(a, Arith(<<b>>, [k |-> "-n", a |-> 1]), "1"))
       /\ Same(NScale(NAdd(a, b, "1"), CVec(<<"-2">>, n)), NAdd(NScale(a, CVec(<<"-2">>, n)), NScale(b, CVec(<<"-2">>, n)), "1"))
       /\ Same(NMat(A, NAdd(a, b, "-1")), NAdd(NMat(A, a), NMat(A, b), "-1"))
       /\ Same(NScale(a, CVec(<<"3">>, n)), NMat(MScale("3", MEye(n)), a))
       /\ (n = 2 => Same(NScale(a, <<"3", "-1">>), NMat(MDiagOf(<<"3", "-1">>), a)))
       /\ (n = 2 => Same(NMat(A12, NMat(A2, a)), NMat(MMul(A12, A2), a)))
\* KL is non-negative, zero only between equal normals, and invariant under invertible maps.
KLLaws == \A i \in Others :
    LET a == Top
        b == ns[i]
        k == KL(a, b)
        sh == CVec(<<"5/2">>, Len(a.mean))
        m == KL(NMat(A2, a), NMat(A2, b))
    IN k.ok => /\ RLe(RNeg(Eps), k.v)
               /\ (RLe(k.v, Eps) <=> Same(a, b))
               /\ RLe(RAbs(RSub(KL(NAff(a, "1", sh), NAff(b, "1", sh)).v, k.v)), Eps)
               /\ (Len(a.mean) = 2 => (m.ok => RLe(RAbs(RSub(m.v, k.v)), Eps)))
\* The Wasserstein distance is a metric that is invariant under common shifts.
Tiny == "1/1000000000000"
D(a, b) == W2(a, b, <<>>, <<>>).v
W2Laws == \A i \in Others :
    LET a == Top
        b == ns[i]
        sh == CVec(<<"5/2">>, Len(a.mean))
    IN /\ RLe(RAbs(RSub(D(a, b), D(b, a))), Tiny)
       /\ (RLe(D(a, b), Tiny) <=> Same(a, b))
       /\ RLe(RAbs(RSub(D(NAff(a, "1", sh), NAff(b, "1", sh)), D(a, b))), Tiny)
       /\ \A j \in Others : RLe(D(a, b), RAdd(RAdd(D(a, ns[j]), D(ns[j], b)), Tiny))
=============================================================================
