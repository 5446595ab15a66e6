------------------------------- MODULE Stream -------------------------------
(* One binary stream over a byte content.  File streams have one position for
   reading and writing; in-memory reader-writers keep two, of which seeks and position
   queries concern the reading one.  crc is the running checksum; done lists the
   bytes transferred since it was last reset (a ghost used by the design model). *)
EXTENDS ByteIO
VARIABLES st, disk
\* kinds: FR FW FRW (files), BR BW BRW (buffers)
Joint(k) == k # "BRW"
Writes(k) == k \in {"FW", "FRW", "BW", "BRW"}
Reads(k) == k \in {"FR", "FRW", "BR", "BRW"}
IsFile(k) == k \in {"FW", "FR", "FRW"}
Closed == [k |-> "", c |-> <<>>, g |-> 0, p |-> 0, crc |-> C!Zero, done |-> <<>>, fail |-> FALSE]
Opened(k, content) == [Closed EXCEPT !.k = k, !.c = content]
At(s) == IF s.k \in {"FW", "BW"} THEN s.p ELSE s.g
ToPos(s, q) == IF s.k = "BRW" THEN [s EXCEPT !.g = q] ELSE [s EXCEPT !.g = q, !.p = q]
Fresh(s) == [s EXCEPT !.crc = C!Zero, !.done = <<>>]
WriteB(s, b) == LET q == s.p + Len(b) IN
  [s EXCEPT !.c = Put(s.c, s.p, b), !.p = q, !.g = IF Joint(s.k) THEN q ELSE s.g, !.crc = C!Crc(s.crc, b), !.done = s.done \o b]
CanRead(s, b) == Has(s.c, s.g, b)
ReadB(s, b, sum) == LET q == s.g + Len(b) IN
  [s EXCEPT !.g = q, !.p = IF Joint(s.k) THEN q ELSE s.p, !.crc = IF sum THEN C!Crc(s.crc, b) ELSE s.crc, !.done = IF sum THEN s.done \o b ELSE s.done]
SeekTo(s, q) == Fresh(ToPos(s, q))
\* what closing (or flushing) leaves on disk
OnDisk(s) == IF s.k \in {"FW", "FRW"} THEN s.c ELSE disk
=============================================================================
