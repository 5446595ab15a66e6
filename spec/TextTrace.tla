----------------------------- MODULE TextTrace -----------------------------
(* conformance of the text readers and writers (files and buffers, any number of nodes) *)
EXTENDS TextFmt, FiniteSets, TLC, Json, IOUtils, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, k, c, p, bad, disk     \* kind, content, reading position, failed, file
vars == <<l, k, c, p, bad, disk>>
t == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Shown(vs, ord) == FoldLeft(LAMBDA acc, i : acc \o Show(vs[i], Default), <<>>, ord)
NL == <<10>>
TextOf(o, vs) == IF o = "Seed" THEN FoldLeft(LAMBDA acc, v : acc \o Show(v, Default) \o NL, <<>>, vs) ELSE Shown(vs, TextOrder(o, Len(vs)))
Writer == k \in {"FW", "BW"}
Begin == IsEvent("begin") /\ k' = "" /\ c' = <<>> /\ p' = 1 /\ bad' = FALSE /\ disk' = <<>>
Open == IsEvent("open") /\ k = "" /\ k' = t.k /\ p' = 1 /\ bad' = FALSE /\ t.fail = 0 /\ (t.k \in {"FW", "FR"} => t.open = 1)
        /\ c' = (CASE t.k = "FW" -> <<>> [] t.k = "FR" -> disk [] OTHER -> t.b) /\ disk' = IF t.k = "FW" THEN <<>> ELSE disk
\* the bytes of a buffer writer opened on a text go over that text from its start (p - 1 bytes of it overwritten so far)
Put(s, at, b) == SubSeq(s, 1, at - 1) \o b \o SubSeq(s, at + Len(b), Len(s))
Write == IsEvent("w") /\ Writer /\ t.fail = 0 /\ t.kept /\ LET b == TLCEval(TextOf(t.o, t.vs)) IN c' = Put(c, p, b) /\ p' = p + Len(b) /\ UNCHANGED <<k, bad, disk>>
\* a composite takes its components one after the other; after a failure nothing more is taken
RECURSIVE TakeAll(_, _, _, _)
TakeAll(s, at, ts, i) == IF i > Len(ts) THEN [ok |-> TRUE, vs |-> <<>>, p |-> at]
   ELSE LET r == Take(s, at, ts[i]) IN IF ~r.ok THEN [ok |-> FALSE, vs |-> <<>>, p |-> r.p]
        ELSE LET q == TakeAll(s, r.p, ts, i + 1) IN [ok |-> q.ok, vs |-> <<r.v>> \o q.vs, p |-> q.p]
SameFloat(ty, got, want) == got.neg = want.neg /\ LET n == Sure(ty) IN
  IF want.d = <<0>> THEN got.d = <<0>> ELSE Len(want.d) <= n /\ got.d # <<0>> /\ <<Strip(got.d), got.x>> = <<want.d, want.x>>
Same(ty, got, want) == IF ty \in Floats THEN SameFloat(ty, got, want) ELSE got.v = want
Read == IsEvent("r") /\ k \in {"FR", "BR"} /\
  IF bad THEN t.fail = 1 /\ UNCHANGED <<k, c, p, bad, disk>>
  ELSE LET ord == TextOrder(t.o, Len(t.vs)) n == Len(t.vs) ts == [i \in 1..n |-> t.vs[ord[i]].t] r == TLCEval(TakeAll(c, p, ts, 1)) IN
    /\ t.fail = (IF r.ok THEN 0 ELSE 1)
    /\ r.ok => \A i \in 1..n : Same(ts[i], t.vs[ord[i]], r.vs[i])
    /\ bad' = ~r.ok /\ p' = r.p /\ UNCHANGED <<k, c, disk>>
Content == IF k = "FW" THEN c ELSE disk
Flush == IsEvent("flush") /\ disk' = Content /\ (k \in {"FW", "FR"} => t.b = disk') /\ UNCHANGED <<k, c, p, bad>>
Str == IsEvent("str") /\ k \in {"BR", "BW"} /\ t.b = c /\ UNCHANGED <<k, c, p, bad, disk>> /\ \A r \in 1..Len(t.loc) : t.loc[r].prim = IF r = 1 THEN c ELSE <<>>
Close == IsEvent("close") /\ t.open = 0 /\ disk' = Content /\ t.b = disk' /\ k' = "" /\ UNCHANGED <<c, p, bad>>
\* a file prepared by the harness
Prepare == IsEvent("prepare") /\ k = "" /\ disk' = t.b /\ UNCHANGED <<k, c, p, bad>>
TraceInit == l = 1 /\ k = "" /\ c = <<>> /\ p = 1 /\ bad = FALSE /\ disk = <<>>
TraceNext == Begin \/ Open \/ Write \/ Read \/ Flush \/ Str \/ Close \/ Prepare
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == PrintT(<<"PREFIX", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
