--------------------------- MODULE DispatchTrace ----------------------------
(* Conformance: the shares <<low, high, thread>> the worker function was called with, each
   with the caller's arguments, are disjoint, in range and cover 0..n-1, at most one for
   each thread of the team                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
t == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Begin == IsEvent("begin")
RECURSIVE Covers(_, _, _)
\* non-empty shares sorted by their start follow one another from x to n
Covers(x, n, sh) == IF x = n THEN sh = {} ELSE \E s \in sh : s[1] = x /\ s[2] <= n /\ Covers(s[2], n, sh \ {s})
Shares(sh, n, k) == LET S == {sh[i] : i \in 1..Len(sh)} IN
  /\ \A i \in 1..Len(sh) : sh[i][1] >= 0 /\ sh[i][1] <= sh[i][2] /\ sh[i][2] <= n /\ sh[i][3] \in 0..(k - 1) /\ sh[i][4] = 1
  /\ Cardinality({sh[i][3] : i \in 1..Len(sh)}) = Len(sh)
  /\ Covers(0, n, {s \in S : s[1] < s[2]})
Call == IsEvent("call") /\ \A i \in 1..Len(t.got) : Shares(t.got[i], t.n, t.team)
\* each of the indices was worked on once, whatever the other threads did meanwhile
Sum == IsEvent("sum") /\ t.once = t.n
TraceInit == l = 1
TraceNext == Begin \/ Call \/ Sum
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == PrintT(<<"PREFIX", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
