---------------------------- MODULE StreamModel ----------------------------
(* Every history of a small stream: the running checksum is that of exactly the bytes
   transferred since the last reset, positions stay inside the content, and data written
   and then read back (in any split) is the same and gives the same checksum.          *)
EXTENDS Stream, FiniteSets
CONSTANTS MaxLen, MaxOps, Kinds
VARIABLE n
vars == <<st, disk, n>>
Chunks == {<<7>>, <<200, 7>>, <<0, 0, 255>>}
Init == st = Closed /\ disk = <<>> /\ n = 0
Tick == n < MaxOps /\ n' = n + 1
Open == Tick /\ st.k = "" /\ \E k \in Kinds :
          /\ st' = Opened(k, IF k \in {"FR", "FRW"} THEN disk ELSE IF k \in {"FW"} THEN <<>> ELSE disk)
          /\ disk' = IF k = "FW" THEN <<>> ELSE disk
Close == Tick /\ st.k # "" /\ disk' = OnDisk(st) /\ st' = Closed
Write == Tick /\ Writes(st.k) /\ UNCHANGED disk /\ \E b \in Chunks : st.p + Len(b) <= MaxLen /\ st' = WriteB(st, b)
Read == Tick /\ Reads(st.k) /\ UNCHANGED disk /\ \E m \in 1..3 : st.g + m <= Len(st.c) /\ st' = ReadB(st, SubSeq(st.c, st.g + 1, st.g + m), TRUE)
Seek == Tick /\ st.k # "" /\ UNCHANGED disk /\ \E q \in 0..Len(st.c) : st' = SeekTo(st, q)
Reset == Tick /\ st.k # "" /\ UNCHANGED disk /\ st' = Fresh(st)
Next == Open \/ Close \/ Write \/ Read \/ Seek \/ Reset
Spec == Init /\ [][Next]_vars
Sum == st.crc = C!Crc(C!Zero, st.done)
Inside == st.g <= Len(st.c) /\ st.p <= Len(st.c)
OneCursor == Joint(st.k) => st.g = st.p
ASSUME C!Crc(C!Zero, <<49, 50, 51, 52, 53, 54, 55, 56, 57>>) = <<52212, 14630>>       \* CBF43926
ASSUME \A b \in {<<0>>, <<255, 1>>, <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 200>>} : C!Crc(C!Zero, b) = C!CrcSlow(b)
ASSUME \A a, b \in Chunks : C!Crc(C!Crc(C!Zero, a), b) = C!Crc(C!Zero, a \o b)
\* the external form determines the value, shape by shape
P(x) == [k |-> "p", b |-> <<x>>]
Small == {[k |-> "nd", n |-> <<a, b>>, v |-> w] : a \in {2}, b \in {1, 2}, w \in {<<P(x), P(y), P(z), P(t)>> : x, y, z, t \in 0..1}}
Good == {v \in Small : Len(v.v) = Prod(v.n)} \cup
        {[k |-> "nd", n |-> <<2, 3>>, v |-> [i \in 1..6 |-> P((m \div (2 ^ (i - 1))) % 2)]] : m \in 0..63} \cup
        {[k |-> "nd", n |-> <<3, 2>>, v |-> [i \in 1..6 |-> P((m \div (2 ^ (i - 1))) % 2)]] : m \in 0..63} \cup
        {[k |-> "nd", n |-> <<0, 2>>, v |-> <<>>], [k |-> "nd", n |-> <<2, 0>>, v |-> <<>>]}
ASSUME \A v, w \in Good : Encode(v) = Encode(w) => v = w
ASSUME Cardinality({Encode([k |-> "seq", v |-> [i \in 1..m |-> P(7)]]) : m \in 0..5}) = 6
ASSUME Encode([k |-> "nd", n |-> <<2, 3>>, v |-> [i \in 1..6 |-> P(i)]]) = <<0, 0, 0, 2, 0, 0, 0, 3, 1, 4, 2, 5, 3, 6>>
=============================================================================
