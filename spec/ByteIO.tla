------------------------------- MODULE ByteIO -------------------------------
(* The external form of values: big-endian primitives, counts before contents.
   A value is a record with a kind k:
     p    b: the bytes of a primitive, most significant first
     desc b: a string with its length in front     line b: a string closed by a newline
     seq  v: a count, then the elements (arrays, vectors, lists; maps as key, value pairs)
     raw  v: the elements alone (pairs, arrays written with an explicit count, QDP scalars)
     nd   n, v: the extents, then the elements with the first index running fastest;
              v lists the elements in row-major order of their indices
     Nd   n, v: the number of extents and the extents, then the elements in row-major order *)
EXTENDS Integers, Sequences, SequencesExt, TLC
C == INSTANCE Crc32
Int4(n) == <<(n \div 16777216) % 256, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
RECURSIVE Encode(_)
Cat(vs) == FoldLeft(LAMBDA acc, v : acc \o TLCEval(Encode(v)), <<>>, vs)
Ints(ns) == FoldLeft(LAMBDA acc, n : acc \o Int4(n), <<>>, ns)
Prod(ns) == FoldLeft(LAMBDA acc, n : acc * n, 1, ns)
\* row-major position of the element that comes q-th when the first index runs fastest
RECURSIVE RowPos(_, _, _)
RowPos(q, n, i) == IF i > Len(n) THEN 0 ELSE (q % n[i]) * Prod(SubSeq(n, i + 1, Len(n))) + RowPos(q \div n[i], n, i + 1)
Encode(v) ==
  CASE v.k = "p" -> v.b
    [] v.k = "desc" -> Int4(Len(v.b)) \o v.b
    [] v.k = "line" -> v.b \o <<10>>
    [] v.k = "seq" -> Int4(Len(v.v)) \o Cat(v.v)
    [] v.k = "raw" -> Cat(v.v)
    [] v.k = "nd" -> Ints(v.n) \o (IF Prod(v.n) = 0 THEN <<>> ELSE Cat([q \in 1..Prod(v.n) |-> v.v[RowPos(q - 1, v.n, 1) + 1]]))
    [] v.k = "Nd" -> Int4(Len(v.n)) \o Ints(v.n) \o Cat(v.v)
\* bytes put over the old ones at offset p (0-based), growing the content as needed
Put(old, p, b) == SubSeq(old, 1, p) \o b \o SubSeq(old, p + Len(b) + 1, Len(old))
Has(content, p, b) == p + Len(b) <= Len(content) /\ SubSeq(content, p + 1, p + Len(b)) = b
=============================================================================
