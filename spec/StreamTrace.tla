---------------------------- MODULE StreamTrace ----------------------------
EXTENDS Stream, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == <<l, st, disk>>
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
t == Trace[l]
\* position, checksum and state queries after the operation (when made)
Query(s) == t.q = <<>> \/ (t.q[1] = At(s) /\ <<t.q[2], t.q[3]>> = s.crc /\ t.q[4] = 0)
Begin == IsEvent("begin") /\ st' = Closed /\ disk' = <<>>
Open == IsEvent("open") /\ st.k = "" /\
  /\ st' = Opened(t.kind, CASE t.kind = "FW" -> <<>> [] t.kind = "FR" -> disk [] t.kind = "FRW" -> (IF t.trunc = 1 THEN <<>> ELSE disk) [] OTHER -> t.b)
  /\ disk' = IF t.kind = "FW" \/ (t.kind = "FRW" /\ t.trunc = 1) THEN <<>> ELSE disk
  /\ Query(st')
\* giving a buffer other contents starts it afresh
Reopen == IsEvent("reopen") /\ st.k \in {"BR", "BW", "BRW"} /\ st' = Opened(st.k, t.b) /\ UNCHANGED disk /\ Query(st')
Write == IsEvent("write") /\ Writes(st.k) /\ t.kept /\ st' = WriteB(st, Encode(t.v)) /\ UNCHANGED disk /\ Query(st')
Read == IsEvent("read") /\ Reads(st.k) /\ LET b == TLCEval(Encode(t.v)) IN CanRead(st, b) /\ st' = ReadB(st, b, TRUE)
        /\ UNCHANGED disk /\ Query(st')
\* words read as little-endian: reversed on file, and not part of the checksum
ReadLE == IsEvent("readle") /\ Reads(st.k) /\ LET b == TLCEval(FoldLeft(LAMBDA acc, w : acc \o Reverse(w), <<>>, t.v)) IN CanRead(st, b) /\ st' = ReadB(st, b, FALSE)
        /\ UNCHANGED disk /\ Query(st')
Seek == IsEvent("seek") /\ st' = SeekTo(st, CASE t.how = "abs" -> t.off [] t.how = "beg" -> t.off [] t.how = "rel" -> At(st) + t.off
                                              [] t.how = "end" -> Len(st.c) - t.off [] t.how = "rewind" -> 0)
        /\ UNCHANGED disk /\ Query(st')
Reset == IsEvent("reset") /\ st' = Fresh(st) /\ UNCHANGED disk /\ Query(st')
Quest == IsEvent("query") /\ UNCHANGED <<st, disk>> /\ Query(st)
\* flush and close put everything written on disk
Flush == IsEvent("flush") /\ disk' = OnDisk(st) /\ (IsFile(st.k) => t.b = disk') /\ UNCHANGED st
Close == IsEvent("close") /\ disk' = OnDisk(st) /\ t.open = 0 /\ t.b = disk' /\ st' = Closed
\* the content of a buffer: on every node, and on the primary node only
Str == IsEvent("str") /\ st.k \in {"BR", "BW", "BRW"} /\ t.b = st.c /\ UNCHANGED <<st, disk>>
       /\ \A r \in 1..Len(t.loc) : t.loc[r].prim = IF r = 1 THEN st.c ELSE <<>>
\* reading past the end fails, on every node, and is reported until cleared
Eof == IsEvent("eof") /\ Reads(st.k) /\ t.fail = 1 /\ st' = [SeekTo(st, Len(st.c)) EXCEPT !.fail = TRUE] /\ UNCHANGED disk
Clear == IsEvent("clear") /\ st' = [SeekTo(st, 0) EXCEPT !.fail = FALSE] /\ UNCHANGED disk /\ Query(st')
\* the C stream routines: bytes on file, what came back, and the caller's data untouched
Bf == IsEvent("bf") /\ t.b = FoldLeft(LAMBDA acc, w : acc \o w, <<>>, t.v) /\ t.back = t.v /\ t.kept /\ t.n = <<Len(t.v), Len(t.v)>> /\ UNCHANGED <<st, disk>>
Swap == IsEvent("swap") /\ t.b = [i \in 1..Len(t.v) |-> Reverse(t.v[i])] /\ UNCHANGED <<st, disk>>
CrcOf == IsEvent("crc") /\ t.whole = C!Crc(C!Zero, t.b) /\ t.split = t.whole /\ UNCHANGED <<st, disk>>
TraceInit == l = 1 /\ st = Closed /\ disk = <<>>
TraceNext == Begin \/ Open \/ Reopen \/ Write \/ Read \/ ReadLE \/ Seek \/ Reset \/ Quest \/ Flush \/ Close \/ Str \/ Eof \/ Clear \/ Bf \/ Swap \/ CrcOf
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == PrintT(<<"PREFIX", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
