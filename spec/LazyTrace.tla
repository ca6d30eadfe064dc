------------------------------ MODULE LazyTrace ------------------------------
(* Validates recorded histories of lazy vectors and matrices.                 *)
EXTENDS Lazy, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
N == Len(Traces)
VARIABLES tid, l, st
vars == <<tid, l, st>>
Report(r) == PrintT("@@" \o ToJson(r))
Fail(c, e) == Report([kind |-> "FAIL", trace |-> tid, line |-> l, clause |-> c, expected |-> e])
Judge(ev, o) ==
    CASE o.err /\ ~ev.err -> Fail("not rejected", "an error")
      [] ~o.err /\ ev.err -> Fail("raised " \o ev.msg, o.val)
      [] ev.calls # o.calls -> Fail("calls of builders", o.calls)
      [] ~o.err /\ ev.op = "get" /\ ev.val # o.val -> Fail("value", o.val)
      [] OTHER -> TRUE
Init == tid \in 1..N /\ l = 1 /\ st = Init0
Consume(ops) ==
    /\ l # 0 /\ l <= Len(Traces[tid].ev)
    /\ LET ev == Traces[tid].ev[l]
           o == Do(st, ev)
       IN ev.op \in ops /\ Judge(ev, o) /\ st' = o.s
    /\ l' = l + 1 /\ UNCHANGED tid
Define == Consume({"new", "rule", "grow"})
Set == Consume({"set"})
Access == Consume({"get"})
Done == /\ l = Len(Traces[tid].ev) + 1
        /\ Report([kind |-> "DONE", trace |-> tid, line |-> l, live |-> TRUE])
        /\ l' = 0 /\ UNCHANGED <<tid, st>>
Next == Define \/ Set \/ Access \/ Done
=============================================================================
