------------------------------ MODULE CommModel ------------------------------
(* All interleavings of the nodes, for all short sequences of operations, with buffered and
   with synchronous sends, with and without clear-to-send                                    *)
EXTENDS Comm
CONSTANTS N, Count, Kinds
VARIABLES logs, c, synch, switched, ops
Segs == UNION {[1..k -> 1..N] : k \in 1..3}
Ops == UNION {CASE k \in {"shift", "sendfirst"} -> {<<k, d>> : d \in 0..(N - 1)} [] k = "peek" -> {<<k, r>> : r \in 1..N} [] k \in {"write", "read"} -> {<<k, s>> : s \in Segs} [] OTHER -> {<<k>>} : k \in Kinds}
Progs(os, sw) == [r \in 1..N |-> FlattenSeq([j \in 1..Len(os) |-> Prog(os[j], r, N, sw)]) \o <<<<"O", 0, 0, 0>>, <<"F", 0, 0, 0>> >>]
Init == /\ synch \in BOOLEAN /\ switched \in BOOLEAN
        /\ \E k \in 1..Count : \E o \in [1..k -> Ops] : ops = o /\ logs = Progs(o, switched)
        /\ c = Start(N)
Next == \E r \in 1..N : Enabled(logs, c, r, synch) /\ c' = Perform(logs, c, r) /\ UNCHANGED <<logs, synch, switched, ops>>
Spec == Init /\ [][Next]_<<logs, c, synch, switched, ops>> /\ WF_<<logs, c, synch, switched, ops>>(Next)
Delivered == \A r \in 1..N : Enabled(logs, c, r, synch) => Right(logs, c, r)
NoDeadlock == Ended(logs, c) \/ \E r \in 1..N : Enabled(logs, c, r, synch)
NothingLeft == Ended(logs, c) => Quiet(c)
\* with clear-to-send, only one node at a time has lattice data on the way to the first node
Waiting(r) == \E j \in 1..Len(c.chan[<<r, 1>>]) : LET o == c.chan[<<r, 1>>][j][3] IN o >= 1 /\ o <= Len(ops) /\ ops[o][1] = "write"
OneAtATime == Cardinality({r \in 2..N : Waiting(r)}) <= 1
NoPileUp == switched => OneAtATime
AllDone == <>Ended(logs, c)
=============================================================================
