-------------------------------- MODULE Comm --------------------------------
(* Nodes that pass messages.  Each node runs a sequence of actions <<kind, peer, length, content>>:
     "P" a receive is posted        "R" it is completed (blocks until the message is there)
     "S" a send is started          "W" it is completed (blocks, where sends are synchronous,
                                        until the addressee has posted the receive for it);
                                        content: of the buffer, which must not change before
     "C" a collective operation: all nodes, same kind and length; content: its result
     "O" the node goes on to its next operation
     "F" the node leaves: peer messages descriptors, length handles it did not release
   Channels keep the order of the messages from one node to another.  at: how far each node is;
   chan[<<s, d>>]: messages under way, each with the operation it belongs to.                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

\* nodes are 1..N; logs[r] is the program of node r
Pairs(N) == {<<s, d>> : s \in 1..N, d \in 1..N}
Start(N) == [at |-> [r \in 1..N |-> 0], op |-> [r \in 1..N |-> 0], chan |-> [q \in Pairs(N) |-> <<>>],
             sent |-> [q \in Pairs(N) |-> 0], out |-> [q \in Pairs(N) |-> <<>>], done |-> [q \in Pairs(N) |-> 0], posted |-> [q \in Pairs(N) |-> 0]]
Here(logs, c, r) == logs[r][c.at[r] + 1]
More(logs, c, r) == c.at[r] < Len(logs[r])
Drop(s, x) == LET j == CHOOSE i \in 1..Len(s) : s[i] = x /\ \A k \in 1..(i - 1) : s[k] # x IN SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
Adv(c, r) == [c EXCEPT !.at[r] = @ + 1]
AllAtColl(logs, c) == \A r \in DOMAIN logs : More(logs, c, r) /\ Here(logs, c, r)[1] = "C"
\* synchronous: a send is completed only when the receive has been posted
Enabled(logs, c, r, synchronous) ==
  More(logs, c, r) /\ LET a == Here(logs, c, r) k == a[1] IN
    CASE k = "R" -> c.chan[<<a[2], r>>] # <<>>
      [] k = "W" -> (synchronous => c.posted[<<r, a[2]>>] > c.done[<<r, a[2]>>])
      [] k = "C" -> AllAtColl(logs, c)
      [] OTHER -> TRUE
\* what must hold of an action when it takes place
Right(logs, c, r) ==
  LET a == Here(logs, c, r) k == a[1] IN
    CASE k \in {"S", "P"} -> a[2] \in DOMAIN logs
      [] k = "W" -> \E j \in 1..Len(c.out[<<r, a[2]>>]) : c.out[<<r, a[2]>>][j] = <<a[3], a[4]>>
      [] k = "R" -> LET m == Head(c.chan[<<a[2], r>>]) IN m[1] = a[3] /\ m[2] = a[4] /\ m[3] = c.op[r]
      [] k = "C" -> \A q \in DOMAIN logs : LET b == Here(logs, c, q) IN b[2] = a[2] /\ b[3] = a[3] /\ b[4] = a[4] /\ c.op[q] = c.op[r]
      [] k = "F" -> a[2] = 0 /\ a[3] = 0
      [] OTHER -> TRUE
Perform(logs, c, r) ==
  LET a == Here(logs, c, r) k == a[1] IN
    CASE k = "S" -> Adv([c EXCEPT !.chan[<<r, a[2]>>] = Append(@, <<a[3], a[4], c.op[r]>>), !.sent[<<r, a[2]>>] = @ + 1, !.out[<<r, a[2]>>] = Append(@, <<a[3], a[4]>>)], r)
      [] k = "P" -> Adv([c EXCEPT !.posted[<<a[2], r>>] = @ + 1], r)
      [] k = "W" -> Adv([c EXCEPT !.done[<<r, a[2]>>] = @ + 1, !.out[<<r, a[2]>>] = Drop(@, <<a[3], a[4]>>)], r)
      [] k = "R" -> Adv([c EXCEPT !.chan[<<a[2], r>>] = Tail(@)], r)
      [] k = "C" -> [c EXCEPT !.at = [q \in DOMAIN logs |-> c.at[q] + 1]]
      [] k = "O" -> Adv([c EXCEPT !.op[r] = @ + 1], r)
      [] OTHER -> Adv(c, r)
Ended(logs, c) == \A r \in DOMAIN logs : ~More(logs, c, r)
Quiet(c) == /\ \A q \in DOMAIN c.chan : c.chan[q] = <<>> /\ c.done[q] = c.sent[q] /\ c.posted[q] = c.sent[q]
            /\ \A r, s \in DOMAIN c.op : c.op[r] = c.op[s]

\* ---- the protocols of the operations, as programs for node r of N ("i" tells the messages apart)
Seqs(s) == FlattenSeq(s)
Exchange(r, to, from, i) == IF to = r THEN <<>> ELSE <<<<"P", from, 2, 0>>, <<"S", to, 2, 100 * i + r>>, <<"R", from, 2, 100 * i + from>>, <<"W", to, 2, 100 * i + r>> >>
Send(r, to, i) == <<<<"S", to, 1, 100 * i + r>>, <<"W", to, 1, 100 * i + r>> >>
Recv(r, from, i) == <<<<"P", from, 1, 0>>, <<"R", from, 1, 100 * i + from>> >>
Route(r, s, d, i) == IF s = d THEN <<>> ELSE IF r = s THEN Send(r, d, i) ELSE IF r = d THEN Recv(r, s, i) ELSE <<>>
Coll(i) == <<<<"C", 1, 1, i>> >>
\* segs: the owner of each segment of the lattice in the order of the file; node 1 does the input and output
Clear(r, n, i) == Route(r, 1, n, i)
WriteLat(r, segs, switched) == Seqs([j \in 1..Len(segs) |->
   (IF switched /\ segs[j] # (IF j = 1 THEN 1 ELSE segs[j - 1]) THEN Clear(r, segs[j], 50 + j) ELSE <<>>) \o Route(r, segs[j], 1, j)])
ReadLat(r, segs) == Seqs([j \in 1..Len(segs) |-> Route(r, 1, segs[j], j)])
Prog(op, r, N, switched) ==
  <<<<"O", 0, 0, 0>> >> \o
  CASE op[1] = "shift" -> (LET d == op[2] IN Exchange(r, ((r - 1 + d) % N) + 1, ((r - 1 - d) % N) + 1, 1))
    [] op[1] = "sum" -> Coll(3)
    [] op[1] = "peek" -> Route(r, op[2], 1, 4) \o Coll(5)
    [] op[1] = "write" -> WriteLat(r, op[2], switched) \o Coll(6)
    [] op[1] = "read" -> ReadLat(r, op[2]) \o Coll(7)
    \* not sound: every node sends before anyone receives
    [] op[1] = "sendfirst" -> (LET d == op[2] to == ((r - 1 + d) % N) + 1 from == ((r - 1 - d) % N) + 1 IN IF to = r THEN <<>> ELSE Send(r, to, 1) \o Recv(r, from, 1))
    \* not sound: only the first node takes part in the broadcast
    [] op[1] = "alone" -> (IF r = 1 THEN Coll(8) ELSE <<>>)
    \* not sound: a message nobody receives
    [] op[1] = "lost" -> (IF r = 1 THEN <<<<"S", 2, 1, 1>> >> ELSE <<>>)
=============================================================================
