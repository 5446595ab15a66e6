---------------------------- MODULE DiskMapTrace ----------------------------
(* conformance of recorded histories, over the lives of several processes *)
EXTENDS DiskMap, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, kt
t == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Begin == IsEvent("begin") /\ st' = Start /\ kt' = ""
Types == IsEvent("map") /\ kt' = t.k /\ UNCHANGED st
\* the listing of every open object holds each of its keys once
KeysOf(o) == LET w == {i \in 1..Len(t.keys) : t.keys[i][1] = o} IN IF w = {} THEN {} ELSE LET ks == t.keys[CHOOSE i \in w : TRUE][2] IN {Ser(kt, ks[j]) : j \in 1..Len(ks)}
Lists == /\ {t.keys[i][1] : i \in 1..Len(t.keys)} = {o \in 1..Objs : Open(st', o)}
         /\ \A i \in 1..Len(t.keys) : LET o == t.keys[i][1] ks == t.keys[i][2] m == st'.obj[o].map IN
              Len(ks) = Cardinality(DOMAIN m) /\ KeysOf(o) = DOMAIN m
Candidates(op) == IF op[1] = "open" /\ ~Open(st, op[2]) /\ op[4] # "new" THEN {m \in st.file[op[3]].opts : DOMAIN m = KeysOf(op[2])} ELSE {Empty}
Op == /\ IsEvent("op") /\ Pre(st, kt, t.op) /\ UNCHANGED kt /\ RetOk(st, kt, t.op, t.ret)
      /\ \E seen \in Candidates(t.op) : Found(st, kt, t.op, seen) /\
            st' = TLCEval(Do(st, kt, t.op, seen, IF t.op[1] = "get" THEN (IF t.ret[1] = 0 THEN t.ret[2] ELSE <<1>>) ELSE t.ret))
      /\ Lists
\* the process was killed, between operations or within one; reading a record whose stored size is
\* damaged may run out of memory (-6), which refuses it too
Died == IsEvent("died") /\ UNCHANGED kt
        /\ (CASE t.rc = 77 -> st' = (IF t.op[1] = "seg" THEN Left(st) ELSE Killed(st, kt, t.op))
              [] t.rc = 1 \/ (t.rc = -6 /\ t.op[1] = "get") -> Pre(st, kt, t.op) /\ MayRefuse(st, kt, t.op) /\ st' = Left(st)
              [] OTHER -> FALSE)
TraceInit == l = 1 /\ st = Start /\ kt = ""
TraceNext == Begin \/ Types \/ Op \/ Died
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st, kt>>
TraceAccepted == PrintT(<<"PREFIX", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
