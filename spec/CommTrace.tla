------------------------------ MODULE CommTrace ------------------------------
(* Conformance of a recorded run: every node's actions, put together again with synchronous
   sends.  As receives name their sender and nothing else decides what a node does, the order in
   which enabled nodes are taken does not matter: if one order comes to the end, all do.        *)
EXTENDS Comm, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
t == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Begin == IsEvent("begin")
\* what all nodes hold alike (merged from their logs: a difference is another event)
Values == IsEvent("val")
Total(logs) == FoldLeft(LAMBDA a, b : a + b, 0, [r \in 1..Len(logs) |-> Len(logs[r])])
\* one node goes on as far as it can, then the next; as long as anyone can
RECURSIVE Ahead(_, _, _, _)
Ahead(logs, c, r, n) == IF n = 0 \/ ~Enabled(logs, c, r, TRUE) THEN [c |-> c, ok |-> TRUE]
                        ELSE IF ~Right(logs, c, r) THEN [c |-> c, ok |-> FALSE]
                        ELSE LET d == TLCEval(Perform(logs, c, r)) IN Ahead(logs, d, r, n - 1)
Round(logs, x) == FoldLeft(LAMBDA y, r : IF y.ok THEN Ahead(logs, y.c, r, 40) ELSE y, x, [r \in 1..Len(logs) |-> r])
Sum(at) == FoldLeft(LAMBDA a, b : a + b, 0, at)
RECURSIVE Replay(_, _)
Replay(logs, x) == LET y == TLCEval(Round(logs, x)) IN IF ~y.ok \/ Sum(y.c.at) = Sum(x.c.at) THEN y ELSE Replay(logs, y)
Verdict(logs) == LET y == TLCEval(Replay(logs, [c |-> Start(Len(logs)), ok |-> TRUE])) IN
   IF y.ok /\ Ended(logs, y.c) /\ Quiet(y.c) THEN TRUE
   ELSE PrintT(<<"stuck", y.ok, y.c.at, [r \in 1..Len(logs) |-> IF More(logs, y.c, r) THEN Here(logs, y.c, r) ELSE <<>>],
                 {q \in DOMAIN y.c.chan : y.c.chan[q] # <<>>}>>) /\ FALSE
Messages == IsEvent("comm") /\ Verdict(t.logs)
TraceInit == l = 1
TraceNext == Begin \/ Values \/ Messages
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == PrintT(<<"PREFIX", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
