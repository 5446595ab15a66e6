---------------------------- MODULE MapMemTrace -----------------------------
(* conformance: what every operation returns, and all maps after it, are those of the model *)
EXTENDS MapMem, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, kt
t == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Begin == IsEvent("begin") /\ st' = Start /\ kt' = ""
Types == IsEvent("map") /\ kt' = t.k /\ UNCHANGED st
Live == {m \in 1..Maps : st'[m].on}
Op == /\ IsEvent("op") /\ Pre(st, kt, t.op) /\ UNCHANGED kt
      /\ st' = TLCEval(Do(st, kt, t.op))
      /\ RetOk(st, kt, t.op, t.ret)
      /\ {t.all[i][1] : i \in 1..Len(t.all)} = Live /\ Len(t.all) = Cardinality(Live)
      /\ \A i \in 1..Len(t.all) : Paired(st', kt, t.all[i][1], t.all[i][2])
\* a reference to the value of a missing key: the process ends with a failure
Lost == IsEvent("lost") /\ On(st, t.m) /\ ~Has(st, kt, t.m, t.key) /\ l < Len(Trace) /\ Trace[l + 1].e = "exit" /\ UNCHANGED <<st, kt>>
Exit == IsEvent("exit") /\ l > 1 /\ t.rc = (IF Trace[l - 1].e = "lost" THEN 1 ELSE 0) /\ UNCHANGED <<st, kt>>
TraceInit == l = 1 /\ st = Start /\ kt = ""
TraceNext == Begin \/ Types \/ Op \/ Lost \/ Exit
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st, kt>>
TraceAccepted == PrintT(<<"PREFIX", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
