--------------------------- MODULE LifecycleTrace ---------------------------
(* Conformance: "do" is written before a call, "done" after it returned, "exit" when the
   process ended without coming to its end; "fresh" tells what a new process that creates
   this lattice first of all holds about it                                              *)
EXTENDS Lifecycle, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, op, fresh
t == Trace[l]
vars == <<l, st, op, fresh>>
None == <<>>
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Begin == IsEvent("begin") /\ st' = Off /\ op' = None /\ fresh' = {}
Fresh == IsEvent("fresh") /\ fresh' = fresh \cup {<<t.lat, t.digest>>} /\ UNCHANGED <<st, op>>
Start == IsEvent("do") /\ op = None /\ Allowed(st, t.op) /\ op' = t.op /\ UNCHANGED <<st, fresh>>
Made == /\ t.latt = st.want /\ t.nodes = NodesN /\ t.grid \in GridsFor(st)
        /\ t.vol = Prod(st.want) /\ t.sites * NodesN = t.vol
        /\ t.sub = Sub(st.want, t.grid)
        /\ <<st.want, t.digest>> \in fresh
        /\ t.iogrid = (IF ~Par THEN [m \in 1..D |-> 1] ELSE st.iogrid)
        /\ t.ionodes = (IF ~Par THEN 1 ELSE IF st.iogrid = <<>> THEN NodesN ELSE Prod(st.iogrid))
Done == /\ IsEvent("done") /\ op # None /\ t.op = op /\ Fate(st, op) = "ok"
        /\ (op[1] = "create" => Made)
        /\ st' = After(st, op, IF op[1] = "create" THEN t.grid ELSE <<>>)
        /\ t.on = st'.on
        /\ op' = None /\ UNCHANGED fresh
Died == IsEvent("exit") /\ op # None /\ Fate(st, op) = "dies" /\ t.rc = Status(op) /\ op' = None /\ UNCHANGED <<st, fresh>>
End == IsEvent("end") /\ op = None /\ UNCHANGED <<st, op, fresh>>
TraceInit == l = 1 /\ st = Off /\ op = None /\ fresh = {}
TraceNext == Begin \/ Fresh \/ Start \/ Done \/ Died \/ End
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == PrintT(<<"PREFIX", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
