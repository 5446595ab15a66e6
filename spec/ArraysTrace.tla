---------------------------- MODULE ArraysTrace -----------------------------
(* conformance: after every operation all arrays, the foreign memory, the number of elements
   alive and what the operation returned are those of the model                        *)
EXTENDS Arrays, TLC, Json, IOUtils, SequencesExt
CONSTANTS FSize
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
t == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Begin == IsEvent("begin") /\ st' = Start(FSize)
Op == IsEvent("op") /\ Pre(st, t.op)
      /\ \E n \in {TLCEval(Do(st, t.op))} : /\ st' = n /\ t.st = Snap(n) /\ t.mem = Mem(n) /\ t.live = (IF t.live < 0 THEN t.live ELSE Held(n))
      /\ t.ret = Ret(st, t.op)
TraceInit == l = 1 /\ st = Start(FSize)
TraceNext == Begin \/ Op
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st>>
TraceAccepted == PrintT(<<"PREFIX", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
