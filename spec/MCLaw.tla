-------------------------------- MODULE MCLaw --------------------------------
(* Exhaustive exploration of small models with exact laws: a and b            *)
(* independent, composed and conditioned in every way over a small alphabet.  *)
(* The invariants are consequences that the stated laws must have; they check *)
(* the specification itself.  Every transition is printed as a program that   *)
(* is run on the real code.                                                   *)
EXTENDS Stheno, Json, IOUtils

Alphabet == IOEnv.ALPHABET
MaxP == atoi(IOEnv.MAXP)
MaxM == atoi(IOEnv.MAXM)

VARIABLES st, how, h   \* how[m] = [par, obs]: how measure m was made
vars == <<st, how, h>>
View == <<st, how>>

P == 1..Len(st.node)
M == 1..Len(st.meas)
Pts(x, f) == [k |-> "pts", x |-> x, form |-> f, D |-> 1]
X1 == Pts(<<<<"1/2">>>>, "vec")
X2 == Pts(<<<<"0">>, <<"1">>>>, "mat")
X3 == Pts(<<<<"0">>, <<"1">>, <<"-3/4">>>>, "vec")
Xq == Pts(<<<<"1/4">>, <<"1">>>>, "vec")
None == [f |-> "none"]
Sc(v) == [f |-> "scalar", v |-> v]
Y == <<"1", "-1/2", "2">>
Part(p, X, no) == [p |-> p, X |-> X, noise |-> no, y |-> SubSeq(Y, 1, Len(Sites(st, p, X))), yform |-> "vec"]
Rq == [k |-> "rq"]
Lin == [c0 |-> "1", c1 |-> <<"1/2">>, c2 |-> "0"]
Gp(m, mean, kern) == [op |-> "gp", m |-> m, mean |-> mean, kern |-> kern, name |-> ""]
Kerns == CASE Alphabet = "compose" -> {[k |-> "sum", l |-> Rq, r |-> [k |-> "lin"]]}
           [] OTHER -> {[k |-> "stretch", c |-> <<"2">>, of |-> Rq], [k |-> "scale", c |-> "2", of |-> Rq]}

\* Conditionings: how many parts, through which inducing points.
Exact(m, parts) == [op |-> "cond", m |-> m, form |-> IF Len(parts) = 1 THEN "two" ELSE "pairs",
                    obs |-> [kind |-> "exact", parts |-> parts, us |-> <<>>]]
Through(m, kind, us, parts) == [op |-> "cond", m |-> m, form |-> "obs", obs |-> [kind |-> kind, parts |-> parts, us |-> us]]
U(p, X, no) == [p |-> p, X |-> X, noise |-> no]
Ms == IF Len(st.meas) < MaxM THEN M ELSE {}
Mem(m) == {p \in Members(st, m) : Len(Paths(st, p)) = 1}
Single(m) == {<<Part(p, X, no)>> : p \in Mem(m), X \in {X1, X2}, no \in {Sc("1/2")}}
Double(m) == {<<Part(p, X1, Sc("1/4")), Part(q, X2, Sc("1/2"))>> : p \in Mem(m), q \in Mem(m)}
Pairs == {<<p, q>> \in P \X P : Home(st, p) = Home(st, q)}
Compositions ==
    IF Len(st.node) >= MaxP THEN {}
    ELSE {[op |-> "bin", k |-> k, p |-> pq[1], q |-> pq[2]] : k \in {"+", "-", "*"}, pq \in {z \in Pairs : z[1] <= z[2]}}
         \cup {[op |-> "un", p |-> p, f |-> f] : p \in P,
                f \in {[k |-> "shift", c |-> <<"1/2">>], [k |-> "p*f", f |-> Lin], [k |-> "warp", f |-> [k |-> "quad", a |-> "1/2", b |-> "1", c |-> "0"]]}}
Events ==
    CASE Alphabet = "stages" -> UNION {{Exact(m, ps) : ps \in Single(m) \cup Double(m)} : m \in Ms}
      [] Alphabet = "compose" -> Compositions \cup UNION {{Exact(m, ps) : ps \in Single(m)} : m \in Ms}
      [] Alphabet = "pseudo" ->
            UNION {{Through(m, k, us, ps) : k \in {"vfe", "fitc", "dtc"},
                      us \in {<<U(p, X, None)>> : p \in Mem(m), X \in {X1, X2}}
                             \cup {<<U(p, X1, Sc("1/4")), U(q, X2, None)>> : p \in Mem(m), q \in Mem(m)},
                      ps \in {<<Part(p, X3, Sc("1/2"))>> : p \in Mem(m)}} : m \in Ms}
            \cup (IF Len(st.meas) = 1 THEN {Exact(1, ps) : ps \in Double(1)} ELSE {})

\* After "pseudo" nothing further is built.
First(ev) == IF ev.op = "cond" THEN Append(how, [par |-> ev.m, obs |-> ev.obs]) ELSE how
Start(k) == LET s1 == DoGP(NewMeasure(Init0, NoCond), Gp(1, Lin, Rq)).st
                s2 == DoGP(s1, Gp(1, FnConst("-1"), k)).st
            IN DoBin(s2, [op |-> "bin", k |-> "+", p |-> 1, q |-> 2]).st
Init == \E k \in Kerns :
          /\ st = Start(k) /\ how = <<[par |-> 0, obs |-> <<>>]>>
          /\ h = <<[op |-> "measure"], Gp(1, Lin, Rq), Gp(1, FnConst("-1"), k), [op |-> "bin", k |-> "+", p |-> 1, q |-> 2]>>
Next == \E ev \in Events :
          LET R == Do(st, ev) IN
          /\ R.ok
          /\ st' = R.st /\ how' = First(ev) /\ h' = Append(h, ev)
          /\ PrintT("@@" \o ToJson([kind |-> "PROG", h |-> h', np |-> Len(R.st.node), nm |-> Len(R.st.meas)]))

\* ------------------------------------------------------------------ invariants
Ok == {m \in M : st.meas[m].ok}
SitesOf(m) == FlattenSeq([i \in 1..Len(st.node) |-> IF InM(st, i, m) THEN Sites(st, i, Xq) ELSE <<>>])
Tiny == "1/1000000000000000000"
Jitter(A) == LET F(i, j) == IF i = j THEN RAdd(A[i][j], "1/1000000") ELSE A[i][j] IN MkMat(Rows(A), Cols(A), F)
Psd(A) == GJ(Jitter(A)).ok

\* Covariances of all processes together are symmetric and positive semi-definite.
Symmetric == \A m \in Ok : LET S == SitesOf(m)
                               C == CovM(st, m, S, S)
                           IN C = MT(C) /\ Psd(C)
\* Evaluation in blocks, of one pair of sites, and of rectangles agree.
PairByPair == \A m \in Ok : LET S == SitesOf(m)
                               C == CovM(st, m, S, S)
                           IN \A i \in {1, Len(S)} : \A j \in {1, Len(S)} : C[i][j] = Cov1(st, m, S[i], S[j])
\* Observing takes uncertainty away, in every direction.
Shrinks == \A m \in Ok :
    how[m].par # 0 =>
        LET S == FlattenSeq([i \in 1..Len(st.node) |-> IF i \in st.meas[m].inh THEN Sites(st, i, Xq) ELSE <<>>])
        IN Psd(MSub(CovM(st, st.meas[m].par, S, S), CovM(st, m, S, S)))
\* p - p is zero, 2 p - p is p.
Cancels == \A m \in Ok : \A p \in P :
    st.node[p].op = "add" /\ st.node[p].p = st.node[p].q /\ st.node[p].s = "-1" /\ InM(st, p, m) =>
        LET S == Sites(st, p, Xq) IN CovM(st, m, S, SitesOf(m)) = MZero(Len(S), Len(SitesOf(m))) /\ MeanV(st, m, S) = <<"0", "0">>

\* Conditioning in two stages is conditioning at once, in both orders.
Joint(m1, m2) == how[m1].obs.parts \o how[m2].obs.parts
Law2(s, m, S) == <<MeanV(s, m, S), CovM(s, m, S, S)>>
Eq(r, t) == RLe(RAbs(RSub(r, t)), Tiny)
Staged == \A m \in Ok :
    LET p == how[m].par IN
    (p # 0 /\ how[p].par # 0) =>
        LET g == how[p].par
            inh == st.meas[p].inh
            S == FlattenSeq([i \in 1..Len(st.node) |-> IF i \in inh THEN Sites(st, i, Xq) ELSE <<>>])
            AtOnce(parts) == NewMeasure(st, Conditioned(st, g, [kind |-> "exact", parts |-> parts, us |-> <<>>], inh))
            A == AtOnce(Joint(p, m))
            B == AtOnce(Joint(m, p))
            n == Len(A.meas)
            La == JointLogpdf(st, g, how[p].obs.parts)
            Lb == JointLogpdf(st, p, how[m].obs.parts)
            Lj == JointLogpdf(st, g, Joint(p, m))
        IN how[m].obs.kind = "exact" /\ how[p].obs.kind = "exact" /\ A.meas[n].ok =>
             /\ Law2(A, n, S) = Law2(st, m, S)
             /\ Law2(B, n, S) = Law2(st, m, S)
             /\ (La.ok /\ Lb.ok /\ Lj.ok) => Eq(Lj.v, RAdd(La.v, Lb.v))

\* Inducing points.
IsPseudo(m) == how[m].par # 0 /\ how[m].obs.kind # "exact"
Inh(m) == FlattenSeq([i \in 1..Len(st.node) |-> IF i \in st.meas[m].inh THEN Sites(st, i, Xq) ELSE <<>>])
With(m, kind, us) == [kind |-> kind, us |-> us, parts |-> how[m].obs.parts]
LawWith(m, obs) == LET s == NewMeasure(st, Conditioned(st, how[m].par, obs, st.meas[m].inh))
                   IN Law2(s, Len(s.meas), Inh(m))
\* The VFE objective is a lower bound; more inducing points make it tighter.
Bound == \A m \in Ok : IsPseudo(m) =>
    LET L == JointLogpdf(st, how[m].par, how[m].obs.parts)
        E(us) == Pseudo(st, how[m].par, "vfe", us, how[m].obs.parts)
        us == how[m].obs.us
        e == E(us)
        f == E(Append(us, U(1, Pts(<<<<"3/2">>>>, "vec"), None)))
    IN /\ (L.ok /\ e.ok) => RLe(e.elbo, RAdd(L.v, Tiny))
       /\ (e.ok /\ f.ok) => RLe(e.elbo, RAdd(f.elbo, Tiny))
\* VFE and DTC predict the same; with the data as inducing points all are exact.
Exactness == \A m \in Ok : IsPseudo(m) =>
    LET us == [i \in 1..Len(how[m].obs.parts) |-> U(how[m].obs.parts[i].p, how[m].obs.parts[i].X, None)]
        Z(k) == Pseudo(st, how[m].par, k, us, how[m].obs.parts)
        ex == [kind |-> "exact", us |-> <<>>, parts |-> how[m].obs.parts]
        L == JointLogpdf(st, how[m].par, how[m].obs.parts)
    IN /\ LawWith(m, With(m, "vfe", how[m].obs.us)) = LawWith(m, With(m, "dtc", how[m].obs.us))
       /\ \A k \in {"vfe", "fitc", "dtc"} : Z(k).ok =>
            /\ LawWith(m, With(m, k, us)) = LawWith(m, ex)
            /\ L.ok => Eq(Z(k).elbo, L.v)
\* No operation changes an established law.
Laws == [][\A m \in Ok : \A p \in Members(st, m) :
             /\ MeanV(st', m, Sites(st, p, Xq)) = MeanV(st, m, Sites(st, p, Xq))
             /\ CovM(st', m, Sites(st, p, Xq), Sites(st, p, Xq)) = CovM(st, m, Sites(st, p, Xq), Sites(st, p, Xq))]_vars
=============================================================================
