------------------------------- MODULE Crc32 -------------------------------
(* CRC-32 (reflected polynomial EDB88320), kept as two 16-bit halves <<high, low>>. *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC
LOCAL Shift1(c) == <<c[1] \div 2, (c[1] % 2) * 32768 + (c[2] \div 2)>>
LOCAL Bit1(c) == LET s == Shift1(c) IN IF c[2] % 2 = 1 THEN <<s[1] ^^ 60856, s[2] ^^ 33568>> ELSE s   \* EDB8, 8320
LOCAL Entry(n) == FoldLeft(LAMBDA c, i : TLCEval(Bit1(c)), <<0, n>>, <<1, 2, 3, 4, 5, 6, 7, 8>>)
Table == TLCEval([n \in 0..255 |-> Entry(n)])
LOCAL Step(c, b) == LET t == Table[(c[2] ^^ b) % 256] IN
                    <<(c[1] \div 256) ^^ t[1], (((c[1] % 256) * 256) + (c[2] \div 256)) ^^ t[2]>>
Neg(c) == <<65535 - c[1], 65535 - c[2]>>
Zero == <<0, 0>>
\* continue the checksum c over more bytes
Crc(c, bytes) == IF bytes = <<>> THEN c ELSE Neg(FoldLeft(LAMBDA x, b : TLCEval(Step(x, b)), Neg(c), bytes))
\* definition without a table, for checking
CrcSlow(bytes) == Neg(FoldLeft(LAMBDA x, b : FoldLeft(LAMBDA c, i : Bit1(c), <<x[1], x[2] ^^ b>>, <<1, 2, 3, 4, 5, 6, 7, 8>>), <<65535, 65535>>, bytes))
=============================================================================
