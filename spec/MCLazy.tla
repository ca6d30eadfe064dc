------------------------------- MODULE MCLazy -------------------------------
(* Exhaustive exploration of lazy tensors over a small alphabet. Every        *)
(* transition is printed as a history with what every step must give.         *)
EXTENDS Lazy, Json, IOUtils
Rank == atoi(IOEnv.RANK)
Depth == atoi(IOEnv.DEPTH)
Bks == IF IOEnv.BKS = "all" THEN {"leaf", "none", "flaky", "ref"} ELSE {"leaf", "flaky"}
VARIABLES st, h
vars == <<st, h>>
\* Values are told apart only by whether they are the same.
View == <<[st EXCEPT !.n = 0, !.t = [k \in 1..Len(st.t) |-> [st.t[k] EXCEPT !.store =
            [i \in DOMAIN @ |-> [none |-> @[i] = "None", same |-> {j \in DOMAIN @ : @[j] = @[i]}]]]]], Len(h)>>
Sym == {"a", "b"}
Keys == IF Rank = 1 THEN {<<s>> : s \in Sym} ELSE {<<s>> : s \in Sym} \cup {<<"a", "b">>, <<"b", "a">>}
Doms == {<<"b">>, <<"a", "b">>}
Rules == {[op |-> "rule", t |-> 1, kind |-> "u", fix |-> "", dom |-> d, bk |-> b] : d \in Doms, b \in Bks}
         \cup (IF Rank = 1 THEN {} ELSE
               {[op |-> "rule", t |-> 1, kind |-> k, fix |-> f, dom |-> d, bk |-> b] :
                  k \in {"l", "r"}, f \in Sym, d \in Doms, b \in Bks})
Grows == {[op |-> "grow", t |-> 1, tag |-> k, s |-> "a"] : k \in 1..st.tags}
Gets == {[op |-> "get", t |-> 1, key |-> k] : k \in Keys}
Sets == {[op |-> "set", t |-> 1, key |-> k, none |-> FALSE] : k \in Keys}
Events == (IF st.tags < 3 THEN Rules ELSE {}) \cup Grows \cup Gets \cup Sets
New == [op |-> "new", rank |-> Rank]
E(ev, o) == [ev |-> ev, err |-> o.err, val |-> o.val, calls |-> o.calls]
Init == LET o == Do(Init0, New) IN st = o.s /\ h = <<E(New, o)>>
Next == /\ Len(h) <= Depth
        /\ \E ev \in Events :
             LET o == Do(st, ev) IN
             /\ st' = o.s /\ h' = Append(h, E(ev, o))
             /\ PrintT("@@" \o ToJson([kind |-> "PROG", h |-> h']))
\* Elements never change unless they are set, and errors leave no trace.
Stable == [][LET e == h'[Len(h')] IN
             /\ \A i \in DOMAIN st.t[1].store :
                  \/ i \in DOMAIN st'.t[1].store /\ st'.t[1].store[i] = st.t[1].store[i]
                  \/ e.ev.op = "set" /\ Expand(Rank, e.ev.key) = i
             /\ e.err => \A i \in DOMAIN st'.t[1].store : i \in DOMAIN st.t[1].store \/ \E k \in 1..Len(e.calls) : TRUE
             /\ e.ev.op \in {"rule", "grow"} => st'.t[1].store = st.t[1].store]_vars
\* No builder is called for an element twice without an error.
NoRebuild == \A a, b \in 1..Len(h) :
    (a < b /\ h[a].ev.op = "get" /\ h[b].ev.op = "get" /\ h[a].ev.key = h[b].ev.key /\ ~h[a].err) =>
        /\ ~h[b].err /\ h[b].calls = <<>>
        /\ \/ h[a].val = h[b].val
           \/ \E c \in a..b : h[c].ev.op = "set" /\ Expand(Rank, h[c].ev.key) = Expand(Rank, h[b].ev.key)
=============================================================================
