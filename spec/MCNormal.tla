------------------------------ MODULE MCNormal ------------------------------
(* All histories of queries of one lazily built normal: which functions may   *)
(* be called, whichever of the permitted ways is taken.                       *)
EXTENDS Normal, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
VARIABLES ns, h, cs
vars == <<ns, h, cs>>
View == <<ns, h[1], h[Len(h)], Len(h) = 1>>
Extra == {"var_diag", "mean_var", "mean_var_diag"}
Var == <<<<"2", "1/2">>, <<"1/2", "1">>>>
News == {[op |-> "lazy", mean |-> IF f \in {"col", "struct"} THEN <<"1", "-2">> ELSE <<"0", "0">>, var |-> Var,
          mform |-> f, vform |-> "np", fns |-> SetToSeq(F)] :
           f \in {"col", "struct", "zero", "zerom", "omit"}, F \in SUBSET Extra}
Asks == {"mean", "var", "var_diag", "mean_var", "marginals", "bounds", "dim", "m2", "entropy", "diagonalise", "str", "mean_is_zero"}
Goal(q) == CASE q \in {"mean", "mean_is_zero"} -> {"mean"} [] q \in {"var", "dim", "entropy"} -> {"var"} [] q = "var_diag" -> {"diag"}
             [] q \in {"marginals", "bounds", "diagonalise"} -> {"mean", "diag"}
             [] q = "str" -> {} [] OTHER -> {"mean", "var"}
\* What is known or follows from it. An omitted mean is always known.
Has(n) == n.known \cup (IF "mean" \notin n.fns THEN {"mean"} ELSE {})
                  \cup (IF "var" \in n.known /\ "var_diag" \notin n.fns THEN {"diag"} ELSE {})
\* The functions that may be called to answer q: every order of every set that does it.
Ways(n, q) == {s \in UNION {SetToAllKPermutations(F) : F \in SUBSET n.fns} :
                LET c == Called(<<n>>, [i \in 1..Len(s) |-> [n |-> 1, f |-> s[i]]], <<Need(q, n)>>)
                IN c.ok /\ Goal(q) \subseteq Has(c.ns[1])}
Init == \E e \in News : ns = NDo(<<>>, e) /\ h = <<e>> /\ cs = <<>>
Ask1(q) == [op |-> "ask", n |-> 1, ask |-> [a |-> q]]
Next == /\ Len(h) <= Depth
        /\ \E q \in Asks : \E s \in Ways(ns[1], q) :
             /\ ns' = Called(ns, [i \in 1..Len(s) |-> [n |-> 1, f |-> s[i]]], <<Need(q, ns[1])>>).ns
             /\ cs' = cs \o s
             /\ h' = Append(h, Ask1(q))
             /\ PrintT("@@" \o ToJson([kind |-> "PROG", h |-> h']))
\* There is always a way to answer, and no function is called twice.
Answerable == \A q \in Asks : Ways(ns[1], q) # {}
Once == \A i, j \in 1..Len(cs) : i # j => cs[i] # cs[j]
\* Marginals never build the variance if a diagonal is available.
Diagonal == [][(h'[Len(h')].ask.a \in {"marginals", "bounds", "diagonalise", "str"} /\ "var_diag" \in ns[1].fns)
               => ("var" \in ns'[1].known => "var" \in ns[1].known)]_vars
=============================================================================
