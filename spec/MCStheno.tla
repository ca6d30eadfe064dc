------------------------------- MODULE MCStheno ------------------------------
(* Exhaustive exploration of the bookkeeping of stheno: which processes,     *)
(* measures, names and defaults there are after every history over a small   *)
(* alphabet. The invariants are the properties of the design; every          *)
(* transition is also printed as a program that is run on the real code.     *)
EXTENDS Stheno, Json, IOUtils

Alphabet == IOEnv.ALPHABET
MaxP == atoi(IOEnv.MAXP)
MaxM == atoi(IOEnv.MAXM)
MaxS == atoi(IOEnv.MAXS)

VARIABLES st, rej, h
vars == <<st, rej, h>>
View == <<st, rej>>

Kern == [k |-> "rq"]
Lin == [c0 |-> "1", c1 |-> <<"1">>, c2 |-> "0"]
Pt(x, f) == [k |-> "pts", x |-> <<<<x>>>>, form |-> f, D |-> 1]
Gp(m, nm) == [op |-> "gp", m |-> m, mean |-> Lin, kern |-> Kern, name |-> nm]
Part(p) == [p |-> p, X |-> Pt("1/2", "vec"), noise |-> [f |-> "scalar", v |-> "1/2"], y |-> <<"1">>, yform |-> "vec"]
Cond(m, ps) == [op |-> "cond", m |-> m, form |-> IF Len(ps) = 1 THEN "two" ELSE "pairs",
                obs |-> [kind |-> "exact", parts |-> [i \in 1..Len(ps) |-> Part(ps[i])], us |-> <<>>]]

P == 1..Len(st.node)
M == 1..Len(st.meas)
RoomP == Len(st.node) < MaxP
RoomM == Len(st.meas) < MaxM
\* Names are interchangeable: the second is used only once the first has been.
Nms == {"a"} \cup (IF \E m \in M : "a" \in DOMAIN st.names[m] THEN {"ab"} ELSE {})

Measures == IF RoomM THEN {[op |-> "measure"]} ELSE {}
Gps(ms, nms) == IF RoomP THEN {Gp(m, n) : m \in {m \in ms : m # 0 \/ Default(st) # 0 \/ RoomM}, n \in nms} ELSE {}
Conds == IF RoomM THEN {Cond(m, <<p>>) : m \in M, p \in P} ELSE {}
Conds2 == IF RoomM THEN {Cond(m, <<q[1], q[2]>>) : m \in M, q \in {q \in P \X P : q[1] < q[2]}} ELSE {}
Copies == IF RoomP THEN {[op |-> "copy", m |-> m, p |-> p] : m \in M, p \in P} ELSE {}
Uns == IF RoomP THEN {[op |-> "un", p |-> p, f |-> [k |-> "-p"]] : p \in P} ELSE {}
Bins(ks) == IF RoomP THEN {[op |-> "bin", k |-> k, p |-> p, q |-> q] : k \in ks, p \in P, q \in P} ELSE {}
Crosses == IF RoomP THEN {[op |-> "cross", ps |-> <<p, q>>] : p \in P, q \in P} ELSE {}
Crosses3 == IF RoomP THEN {[op |-> "cross", ps |-> <<p, q, r>>] : p \in P, q \in P, r \in P} ELSE {}
Renames == {[op |-> "name", p |-> p, name |-> n] : p \in P, n \in Nms}
           \cup {[op |-> "mname", m |-> m, p |-> p, name |-> n] : m \in M, p \in P, n \in Nms}
Enters == IF Len(st.stk) < MaxS THEN {[op |-> "enter", m |-> m] : m \in M} ELSE {}
Exits == IF st.stk = <<>> THEN {} ELSE {[op |-> "exit", m |-> Default(st), exc |-> e] : e \in BOOLEAN}

Events ==
    CASE Alphabet = "names" ->   \* only members of a measure are named in it
            Measures \cup Gps({0} \cup M, {""} \cup Nms) \cup Conds \cup Copies
            \cup {e \in Renames : e.op = "name" \/ InM(st, e.p, e.m)}
      [] Alphabet = "members" ->
            Measures \cup Gps(M, {""}) \cup Conds \cup Copies \cup Uns \cup Bins({"+"})
      [] Alphabet = "joint" ->
            Gps(M, {""}) \cup Conds2 \cup Copies \cup Crosses \cup Bins({"*"})
      [] Alphabet = "foreign" ->   \* operands of several homes, also in the middle
            Measures \cup Gps(M, {""}) \cup Crosses3
      [] Alphabet = "context" ->
            Measures \cup Gps({0} \cup M, {""}) \cup Enters \cup Exits

Emit(ev, R) == [ev |-> ev, ok |-> R.ok, np |-> Len(R.st.node), nm |-> Len(R.st.meas)]
Init == /\ st = NewMeasure(Init0, NoCond) /\ rej = FALSE
        /\ h = <<[ev |-> [op |-> "measure"], ok |-> TRUE, np |-> 0, nm |-> 1]>>
Next == \E ev \in Events :
          LET R == Do(st, ev) IN
          /\ st' = R.st /\ rej' = ~R.ok
          /\ h' = Append(h, Emit(ev, R))
          /\ PrintT("@@" \o ToJson([kind |-> "PROG", h |-> h']))

\* ------------------------------------------------------------------ properties
\* Names and named processes are in one-to-one correspondence.
OneToOne == \A m \in M : \A a, b \in DOMAIN st.names[m] : st.names[m][a] = st.names[m][b] => a = b
NamesExist == \A m \in M : \A a \in DOMAIN st.names[m] : st.names[m][a] \in P /\ InM(st, st.names[m][a], m)
\* Every process has a home, and belongs to measures at most once.
Homes == \A p \in P : /\ st.ml[p] # <<>>
                      /\ \A i, j \in 1..Len(st.ml[p]) : st.ml[p][i] = st.ml[p][j] => i = j
\* A measure that was conditioned has all processes the original had then, and the
\* measures of a process are its home and measures conditioned from those.
Descends == \A p \in P : \A i \in 2..Len(st.ml[p]) :
              \/ p \in st.meas[st.ml[p][i]].inh /\ \E j \in 1..(i - 1) : st.ml[p][j] = st.meas[st.ml[p][i]].par
              \/ p \notin st.meas[st.ml[p][i]].inh
\* A combination belongs to exactly the measures that all operands share that existed then,
\* and to those conditioned from them later.
Ops(n) == CASE n.op = "add" -> <<n.p, n.q>> [] n.op = "prod" -> <<n.p, n.q>> [] n.op = "cross" -> n.ps
            [] n.op = "aff" -> <<n.p>> [] n.op = "alias" -> <<n.p>> [] OTHER -> <<>>
Shares == \A p \in P :
    LET os == Ops(st.node[p]) IN
    os # <<>> => /\ \A i \in 1..Len(st.ml[p]) : \/ \A k \in 1..Len(os) : InM(st, os[k], st.ml[p][i])
                                                \/ st.node[p].op = "alias"
                 /\ st.node[p].op # "alias" => \A k \in 1..Len(os) : Home(st, os[k]) = Home(st, p)
\* The default is the innermost open block.
Innermost == Default(st) = (IF st.stk = <<>> THEN 0 ELSE st.stk[Len(st.stk)])

\* No operation changes what has been established: members, homes and laws.
Site(p) == IF Len(Paths(st, p)) = 1 THEN Sites(st, p, Pt("1/4", "vec")) ELSE <<>>
Grows == [][/\ \A p \in P : IsPrefix(st.ml[p], st'.ml[p]) /\ st'.node[p] = st.node[p]
            /\ \A m \in M : /\ st'.meas[m] = st.meas[m]
                            /\ {p \in P : InM(st', p, m)} = {p \in P : InM(st, p, m)}
            /\ rej' => st' = st]_vars
Laws == [][\A m \in M : \A p \in Members(st, m) :
             /\ MeanV(st', m, Site(p)) = MeanV(st, m, Site(p))
             /\ CovM(st', m, Site(p), Site(p)) = CovM(st, m, Site(p), Site(p))]_vars
=============================================================================
