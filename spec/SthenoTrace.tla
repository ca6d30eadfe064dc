---------------------------- MODULE SthenoTrace ----------------------------
(* Trace validation: every recorded call of every trace must be one the     *)
(* specification accepts, with the outcome and the values it prescribes.    *)
(* Verdicts are total: a mismatch is reported with the clause that failed   *)
(* and the rest of the trace is still checked, as long as the recorded run  *)
(* and the specification agree on which objects exist.                      *)
EXTENDS Judge, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
N == Len(Traces)

VARIABLES tid, l, st, live
vars == <<tid, l, st, live>>

Fail(clause, e) == <<[clause |-> clause, expected |-> e]>>
Show(op, e) == IF op = "members" THEN SetToSeq(e) ELSE e

\* Failures of one event: a sequence of [clause, expected].
Judge(ev, tol, A, R) ==
    IF ev.op \in Queries
    THEN LET t == IF "tol" \in DOMAIN ev THEN ev.tol ELSE tol
         IN IF A.skip THEN <<>>
            ELSE IF A.ok /\ ev.err # "" THEN Fail("raised: " \o ev.err, "an answer")
            ELSE IF ~A.ok THEN (IF ev.err = "" THEN Fail("not rejected", "an error") ELSE <<>>)
            ELSE IF ev.op \in {"fdd", "take"}
            THEN FlattenSeq([i \in 1..Len(ev.asks) |->
                     LET e == A.v[i]
                     IN IF e.skip THEN <<>>
                        ELSE IF "err" \in DOMAIN ev.asks[i] THEN Fail(ev.asks[i].a \o " raised: " \o ev.asks[i].err, e.v)
                        ELSE IF AskClose(t, ev.asks[i], e.v) THEN <<>> ELSE Fail(ev.asks[i].a, e.v)])
            ELSE IF ev.op \in Symbolic
            THEN IF ev.op = "members" THEN (IF {ev.val[i] : i \in 1..Len(ev.val)} = A.v THEN <<>> ELSE Fail("members", SetToSeq(A.v)))
                 ELSE IF ev.val = A.v THEN <<>> ELSE Fail(ev.op, A.v)
            ELSE IF ev.op = "stationary"
            THEN IF A.v.must /\ ev.val # "1" THEN Fail("not stationary", "stationary")
                 ELSE IF ev.val = "1" /\ ~A.v.may THEN Fail("stationary", "not stationary") ELSE <<>>
            ELSE IF ev.op = "sample"
            THEN LET c == SampleOK(ev, A.v) IN IF c = "" THEN <<>> ELSE Fail(c, A.v)
            ELSE IF ev.op \in {"logpdf", "elbo", "grad"}
            THEN IF Close(t, A.v, ev.val) THEN <<>> ELSE Fail(ev.op, A.v)
            ELSE IF CloseM(t, A.v, ev.val) THEN <<>> ELSE Fail(ev.op, A.v)
    ELSE IF R.ok /\ ev.err # "" THEN Fail("raised: " \o ev.err, "accepted")
            ELSE IF ~R.ok /\ ev.err = "" THEN Fail("not rejected", "an error")
            ELSE IF R.ok /\ ev.op \in Creates
            THEN LET p == Len(R.st.node)
                 IN IF ev.home = Home(R.st, p) THEN <<>> ELSE Fail("home", ToString(Home(R.st, p)))
            ELSE IF ev.op = "exit" /\ ev.exc /\ ev.swallowed THEN Fail("exception swallowed", "propagated")
            ELSE <<>>

\* After such a failure the run and the specification have different objects.
Fatal(ev, R) == ev.op \notin Queries /\ \/ R.ok # (ev.err = "")
                                        \/ ev.op = "gp" /\ R.ok /\ ev.home # Home(R.st, Len(R.st.node))

\* A measure with laws that floating point cannot reproduce may fail in any way.
Ill(s, R, ev) == ev.err # "" /\ \E T \in {s, R.st} : \E m \in 1..Len(T.meas) : ~T.meas[m].ok

Report(r) == PrintT("@@" \o ToJson(r))
Tell(fs) == \A i \in 1..Len(fs) :
               Report([kind |-> "FAIL", trace |-> tid, line |-> l, clause |-> fs[i].clause, expected |-> fs[i].expected])

\* ----------------------------------------------------------------- behaviour
Init == tid \in 1..N /\ l = 1 /\ st = Init0 /\ live = TRUE
Consume(ops) ==
    /\ live /\ l <= Len(Traces[tid].ev)
    /\ Traces[tid].ev[l].op \in ops
    /\ LET ev == Traces[tid].ev[l]
           R == Do(st, ev)
           A == Answer(st, ev)
           ill == Ill(st, R, ev)
       IN /\ IF ill THEN TRUE ELSE Tell(Judge(ev, Traces[tid].tol, A, R))
          /\ IF ill \/ (ev.op \in Queries /\ A.skip) THEN Report([kind |-> "SKIP", trace |-> tid, line |-> l]) ELSE TRUE
          /\ IF Fatal(ev, R) THEN live' = FALSE /\ UNCHANGED st
             ELSE live' = TRUE /\ st' = R.st
    /\ l' = l + 1 /\ UNCHANGED tid
Construct == Consume({"measure", "gp", "custom", "copy"})
Compose == Consume({"un", "bin", "cross"})
Condition == Consume({"cond"})
Rename == Consume({"name", "mname"})
Context == Consume({"enter", "exit"})
Query == Consume(Queries)
Done == /\ ~live \/ l = Len(Traces[tid].ev) + 1
        /\ l # 0
        /\ Report([kind |-> "DONE", trace |-> tid, line |-> l, live |-> live])
        /\ l' = 0 /\ live' = FALSE /\ UNCHANGED <<tid, st>>
Next == Construct \/ Compose \/ Condition \/ Rename \/ Context \/ Query \/ Done
=============================================================================
