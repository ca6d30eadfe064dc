----------------------------- MODULE EvalsTrace -----------------------------
(* Trace validation of costs: a query evaluates the kernels only where it    *)
(* needs to, and deals with the data of a measure only once.                 *)
EXTENDS Evals, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
N == Len(Traces)

VARIABLES tid, l, st, D, seen    \* seen[m]: what was evaluated for the data of m
vars == <<tid, l, st, D, seen>>

Costed == {"mean", "cov", "elw", "fdd", "logpdf", "elbo"}
Swap(e) == <<e[1], e[3], e[2]>>
In(e, S) == e \in S \/ Swap(e) \in S
Report(r) == PrintT("@@" \o ToJson(r))
Fail(clause, S) == Report([kind |-> "FAIL", trace |-> tid, line |-> l, clause |-> clause, expected |-> SetToSeq(S)])

Init == tid \in 1..N /\ l = 1 /\ st = Init0 /\ D = <<>> /\ seen = <<>>
Ev == Traces[tid].ev[l]
Step(st2) ==
    /\ st' = st2
    /\ LET new == Len(st2.meas) > Len(D)
       IN /\ D' = IF new THEN Append(D, IF Ev.op = "cond" THEN DataOf(st, Ev.obs) ELSE NoData) ELSE D
          /\ seen' = IF new THEN Append(seen, {}) ELSE seen
Build == /\ Ev.op \notin Costed
         /\ IF Ev.err # "" THEN Fail("raised: " \o Ev.err, {}) ELSE TRUE
         /\ Step(Do(st, Ev).st)
Query == /\ Ev.op \in Costed
         /\ UNCHANGED <<st, D>>
         /\ LET E == {<<e[1], e[2], e[3]>> : e \in {Ev.evals[i] : i \in 1..Len(Ev.evals)}}
                need == TLCEval(Needs(st, D, Ev))
                C == ChainOf(st, Where(st, Ev))
                data == TLCEval([m \in C |-> Data(st, D, m)])
                rest == {e \in E : ~In(e, need)}
                bad == {e \in rest : \A m \in C : ~In(e, data[m])}
                again == {e \in rest \ bad : \A m \in C : In(e, data[m]) => e \in seen[m]}
                \* Evaluated for the data of m and of no other measure.
                own(m) == {e \in rest : In(e, data[m]) /\ \A n \in C \ {m} : ~In(e, data[n])}
            IN /\ IF Ev.err # "" THEN Fail("raised: " \o Ev.err, {}) ELSE TRUE
               /\ IF bad # {} THEN Fail("evaluated covariances that are not needed", bad) ELSE TRUE
               /\ IF again # {} THEN Fail("evaluated covariances of the data again", again) ELSE TRUE
               /\ seen' = [m \in 1..Len(seen) |-> IF m \in C THEN seen[m] \cup own(m) ELSE seen[m]]
Consume == l # 0 /\ l <= Len(Traces[tid].ev) /\ (Build \/ Query) /\ l' = l + 1 /\ UNCHANGED tid
Done == /\ l = Len(Traces[tid].ev) + 1
        /\ Report([kind |-> "DONE", trace |-> tid, line |-> l, live |-> TRUE])
        /\ l' = 0 /\ UNCHANGED <<tid, st, D, seen>>
Next == Consume \/ Done
=============================================================================
