------------------------------- MODULE Evals -------------------------------
(* Which values of the kernels of the independent processes a query needs:  *)
(* the cost that a result may have.  A needed value is <<p, x, y>>: the     *)
(* covariance of process p between inputs x and y.                          *)
(* D[m] says what measure m was conditioned on: sites S (of the data, or of *)
(* the inducing points) and, for inducing points, sites X of the data.      *)
EXTENDS Stheno

NoData == [kind |-> "prior", S |-> <<>>, X |-> <<>>]
DataOf(st, obs) ==
    LET A == Available(st, obs.parts)
    IN IF obs.kind = "exact" THEN [kind |-> "exact", S |-> A.S, X |-> <<>>]
       ELSE [kind |-> obs.kind, S |-> PSites(st, obs.us), X |-> A.S]

Rng(s) == {s[i] : i \in 1..Len(s)}
Atoms(st, m, a) == DOMAIN Expand(st, m, a).t

\* What the covariances of the pairs of sites P and the means of the sites M
\* under m need, once the data is dealt with.
RECURSIVE Need(_, _, _, _, _)
Need(st, D, m, P, M) ==
    IF P = {} /\ M = {} THEN {} ELSE
    LET sites == M \cup {q[1] : q \in P} \cup {q[2] : q \in P}
        Ex == TLCEval([a \in sites |-> Atoms(st, m, a)])
        atoms == UNION {Ex[a] : a \in sites}      \* the means of products are among the coefficients
        pairs == TLCEval(UNION {Ex[q[1]] \X Ex[q[2]] : q \in P})
        inh == {x \in atoms : Inherited(st, m, x.p)}
        inhp == {q \in pairs : q[1] \in inh /\ q[2] \in inh}
        own == {q \in pairs : q[1] \notin inh /\ q[2] \notin inh /\ q[1].p = q[2].p}
        base == {q \in own : st.node[q[1].p].op = "base"}
        F(s, n, p) == [p |-> p, o |-> IF p = n.p THEN s.o ELSE SamePath(st, n.p, p, s.o), x |-> s.x, d |-> <<>>]
        fac == UNION {LET n == st.node[q[1].p] IN {<<F(q[1], n, p), F(q[2], n, r)>> : p, r \in {n.p, n.q}} : q \in own \ base}
    IN {<<q[1].p, q[1].x, q[2].x>> : q \in base}
       \cup Need(st, D, m, fac, {})
       \cup (IF inh = {} THEN {}
             ELSE Need(st, D, st.meas[m].par, TLCEval(inhp \cup inh \X Rng(D[m].S)), inh))

All(st, D, m, A, B) == Need(st, D, m, Rng(A) \X Rng(B), {})
Each(st, D, m, A) == Need(st, D, m, {<<a, a>> : a \in Rng(A)}, {})
Means(st, D, m, A) == Need(st, D, m, {}, Rng(A))

\* Dealing with the data that m was conditioned on.
Data(st, D, m) ==
    LET par == st.meas[m].par
    IN IF par = 0 THEN {}
       ELSE Means(st, D, par, D[m].S) \cup All(st, D, par, D[m].S, D[m].S)
            \cup (IF D[m].kind = "exact" THEN {}
                  ELSE Means(st, D, par, D[m].X) \cup All(st, D, par, D[m].S, D[m].X)
                       \cup (IF D[m].kind = "dtc" THEN {} ELSE Each(st, D, par, D[m].X)))
RECURSIVE ChainOf(_, _)
ChainOf(st, m) == IF m = 0 THEN {} ELSE {m} \cup ChainOf(st, st.meas[m].par)

Diagonal == {"marginals", "bounds", "var_diag"}
\* What a query needs besides.
Needs(st, D, ev) ==
    CASE ev.op = "mean" -> Means(st, D, ev.m, Sites(st, ev.p, ev.X))
      [] ev.op = "cov" -> All(st, D, ev.m, Sites(st, ev.p, ev.X), Sites(st, ev.q, ev.Y))
      [] ev.op = "elw" -> LET A == Sites(st, ev.p, ev.X)
                              B == Sites(st, ev.q, ev.Y)
                          IN Need(st, D, ev.m, {<<A[i], B[i]>> : i \in 1..Len(A)}, {})
      [] ev.op = "fdd" ->
            LET m == IF ev.m = 0 THEN Home(st, ev.p) ELSE ev.m
                A == Sites(st, ev.p, ev.X)
                Asked(a) == IF a = "mean" THEN Means(st, D, m, A)
                          ELSE IF a \in Diagonal THEN Each(st, D, m, A)
                          ELSE All(st, D, m, A, A)
            IN UNION {Asked(a) : a \in {ev.asks[i].a : i \in 1..Len(ev.asks)}}
      [] ev.op = "logpdf" -> LET d == DataOf(st, ev.obs) IN All(st, D, ev.m, d.S, d.S)
      [] ev.op = "elbo" -> LET d == DataOf(st, ev.obs)
                           IN Means(st, D, ev.m, d.X) \cup All(st, D, ev.m, d.S, d.S) \cup All(st, D, ev.m, d.S, d.X)
                              \cup (IF ev.obs.kind = "dtc" THEN {} ELSE Each(st, D, ev.m, d.X))
Where(st, ev) == IF ev.op = "fdd" /\ ev.m = 0 THEN Home(st, ev.p) ELSE ev.m
=============================================================================
