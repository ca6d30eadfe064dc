-------------------------------- MODULE Lazy --------------------------------
(* Lazy vectors and matrices: what every access returns and which builders   *)
(* it calls.                                                                  *)
(*                                                                            *)
(* State: t, the tensors, each [rank, store, rules]; n, the number of values  *)
(* there have been; fl, the builders that have failed before; tags, the       *)
(* number of rules added.                                                     *)
(* An index is a symbol: a letter that names an object, or an integer. How    *)
(* the index is given (the object, or the integer that is its identity) is    *)
(* up to the caller and makes no difference.                                  *)
(* A rule is [kind, fix, dom, bk, tag]: kind "u" (universal), "l" (left), or  *)
(* "r" (right), dom the domain at the time of addition, bk what the builder   *)
(* does: "leaf" gives a new value, "none" the value None, "fail" raises,      *)
(* "flaky" raises the first time it is called, "ref" asks for the element at  *)
(* the first index and then gives a new value.                                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

First == "a"
Empty == [s \in {} |-> ""]
Init0 == [t |-> <<>>, n |-> 0, fl |-> {}, tags |-> 0]

Expand(rank, key) == IF rank = 2 /\ Len(key) = 1 THEN <<key[1], key[1]>> ELSE key

Applies(r, i) ==
    CASE r.kind = "u" -> \A k \in 1..Len(i) : i[k] \in r.dom
      [] r.kind = "l" -> i[1] = r.fix /\ i[2] \in r.dom
      [] r.kind = "r" -> i[2] = r.fix /\ i[1] \in r.dom
Of(rs, kind, i) == SelectSeq(rs, LAMBDA r : r.kind = kind /\ Applies(r, i))
\* The rules that apply, by precedence.
Candidates(rs, i) == Of(rs, "u", i) \o Of(rs, "l", i) \o Of(rs, "r", i)
Args(r, i) == CASE r.kind = "u" -> i [] r.kind = "l" -> <<i[2]>> [] r.kind = "r" -> <<i[1]>>

V(n) == "v" \o ToString(n)
\* The outcome of an operation: state, error, value, and calls of builders.
Out(s, err, val, calls) == [s |-> s, err |-> err, val |-> val, calls |-> calls]

RECURSIVE Get(_, _, _)
Get(s, t, i) ==
    IF i \in DOMAIN s.t[t].store THEN Out(s, FALSE, s.t[t].store[i], <<>>)
    ELSE LET cs == Candidates(s.t[t].rules, i) IN
         IF cs = <<>> THEN Out(s, TRUE, "", <<>>)
         ELSE LET r == cs[1]
                  call == [tag |-> r.tag, args |-> Args(r, i)]
                  Keep(x, v) == [x EXCEPT !.t[t].store = (i :> v) @@ @]
                  New(x, calls) == Out(Keep([x EXCEPT !.n = @ + 1], V(x.n + 1)), FALSE, V(x.n + 1), calls)
                  first == [k \in 1..Len(i) |-> First]
              IN CASE r.bk = "leaf" -> New(s, <<call>>)
                   [] r.bk = "none" -> Out(Keep(s, "None"), FALSE, "None", <<call>>)
                   [] r.bk = "fail" -> Out(s, TRUE, "", <<call>>)
                   [] r.bk = "flaky" -> IF r.tag \in s.fl THEN New(s, <<call>>)
                                        ELSE Out([s EXCEPT !.fl = @ \cup {r.tag}], TRUE, "", <<call>>)
                   [] r.bk = "ref" -> IF i = first THEN New(s, <<call>>)
                                      ELSE LET o == Get(s, t, first)
                                           IN IF o.err THEN Out(o.s, TRUE, "", <<call>> \o o.calls)
                                              ELSE New(o.s, <<call>> \o o.calls)

Do(s, ev) ==
    CASE ev.op = "new" ->
            Out([s EXCEPT !.t = Append(@, [rank |-> ev.rank, store |-> Empty, rules |-> <<>>])], FALSE, "", <<>>)
      [] ev.op = "rule" ->
            Out([s EXCEPT !.tags = @ + 1,
                          !.t[ev.t].rules = Append(@, [kind |-> ev.kind, fix |-> ev.fix, bk |-> ev.bk, tag |-> s.tags + 1,
                                                       dom |-> {ev.dom[k] : k \in 1..Len(ev.dom)}])], FALSE, "", <<>>)
      [] ev.op = "grow" -> Out(s, FALSE, "", <<>>)   \* the caller changes the set it gave as a domain
      [] ev.op = "set" ->
            LET i == Expand(s.t[ev.t].rank, ev.key)
                v == IF ev.none THEN "None" ELSE V(s.n + 1)
            IN Out([s EXCEPT !.n = IF ev.none THEN @ ELSE @ + 1, !.t[ev.t].store = (i :> v) @@ @], FALSE, "", <<>>)
      [] ev.op = "get" -> Get(s, ev.t, Expand(s.t[ev.t].rank, ev.key))
=============================================================================
