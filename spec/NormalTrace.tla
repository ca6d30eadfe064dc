---------------------------- MODULE NormalTrace ----------------------------
(* Validates recorded histories of normal random variables.                  *)
EXTENDS Normal, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
N == Len(Traces)
VARIABLES tid, l, ns
vars == <<tid, l, ns>>
Report(r) == PrintT("@@" \o ToJson(r))
Fail(c, e) == Report([kind |-> "FAIL", trace |-> tid, line |-> l, clause |-> c, expected |-> e])

ValueOK(ev, tol, e) ==
    CASE ev.op = "ask" /\ ev.ask.a \in {"str", "repr", "dtype"} -> ev.val = e
      [] ev.op = "ask" /\ ev.ask.a = "mean_is_zero" -> e = "any" \/ ev.val = e
      [] ev.op = "ask" -> AskClose(tol, [val |-> ev.val] @@ ev.ask, e)
      [] ev.op = "pair" -> Close(IF ev.k = "w2" /\ RLe(e, "1/50") THEN "1/1000" ELSE tol, e, ev.val)
      [] OTHER -> TRUE
Judge(ev, tol, A, C) ==
    CASE A.skip -> Report([kind |-> "SKIP", trace |-> tid, line |-> l])
      [] ~A.ok /\ ev.err = "" -> Fail("not rejected", "an error")
      [] A.ok /\ ev.err # "" -> Fail("raised: " \o ev.err, "an answer")
      [] ~C.ok -> Fail("a function was called that was not needed, or called before", ev.calls)
      [] A.ok /\ ev.op = "sample" -> LET c == SampleOK([ev EXCEPT !.n = ev.num], A.v) IN IF c = "" THEN TRUE ELSE Fail(c, A.v)
      [] A.ok /\ ~ValueOK(ev, tol, A.v) -> Fail(IF ev.op = "ask" THEN ev.ask.a ELSE ev.k, A.v)
      [] OTHER -> TRUE
Init == tid \in 1..N /\ l = 1 /\ ns = <<>>
Consume(ops) ==
    /\ l # 0 /\ l <= Len(Traces[tid].ev)
    /\ LET ev == Traces[tid].ev[l]
           C == Called(ns, ev.calls, Needs(ns, ev))
       IN ev.op \in ops /\ Judge(ev, Traces[tid].tol, NAnswer(ns, ev), C) /\ ns' = TLCEval(NDo(C.ns, ev))
    /\ l' = l + 1 /\ UNCHANGED tid
Create == Consume({"new", "lazy"})
Combine == Consume({"arith"})
Query == Consume({"ask", "pair", "sample"})
Reject == Consume({"illegal"})
Done == /\ l = Len(Traces[tid].ev) + 1
        /\ Report([kind |-> "DONE", trace |-> tid, line |-> l, live |-> TRUE])
        /\ l' = 0 /\ UNCHANGED <<tid, ns>>
Next == Create \/ Combine \/ Query \/ Reject \/ Done
=============================================================================
