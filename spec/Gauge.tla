------------------------------- MODULE Gauge -------------------------------
(* The NERSC archive: matrices of three or two rows, in global lexicographic site order,
   directions innermost; the checksum is the sum of the 32-bit words modulo 2^32.  A matrix
   is a sequence of nine complex numbers <<re, im>>, row by row; words are halves <<high, low>>. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Mul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Conj(a) == <<a[1], -a[2]>>
At(a, i, j) == a[3 * (i - 1) + j]
Prod(a, b) == [k \in 1..9 |-> LET i == ((k - 1) \div 3) + 1 j == ((k - 1) % 3) + 1 IN
                 Add(Mul(At(a, i, 1), At(b, 1, j)), Add(Mul(At(a, i, 2), At(b, 2, j)), Mul(At(a, i, 3), At(b, 3, j))))]
Adj(a) == [k \in 1..9 |-> Conj(At(a, ((k - 1) % 3) + 1, ((k - 1) \div 3) + 1))]
One == [k \in 1..9 |-> IF k \in {1, 5, 9} THEN <<1, 0>> ELSE <<0, 0>>]
Unitary(a) == Prod(a, Adj(a)) = One
Trace3(a) == a[1][1] + a[5][1] + a[9][1]
\* third row from the first two
Cross(r, j) == LET a == (j % 3) + 1 b == ((j + 1) % 3) + 1 IN Conj(Sub(Mul(r[a], r[3 + b]), Mul(r[b], r[3 + a])))
Rebuild(r) == r \o <<Cross(r, 1), Cross(r, 2), Cross(r, 3)>>
\* words of a matrix and back
Flat(a, n) == [k \in 1..n |-> a[((k - 1) \div 2) + 1][((k - 1) % 2) + 1]]
FromWords(w) == LET c == [k \in 1..(Len(w) \div 2) |-> <<w[2 * k - 1], w[2 * k]>>] IN IF Len(w) = 18 THEN c ELSE Rebuild(c)
\* IEEE patterns of integers below 2^20
RECURSIVE Log2(_)
Log2(n) == IF n < 2 THEN 0 ELSE 1 + Log2(n \div 2)
P2(k) == 2 ^ k
Abs(n) == IF n < 0 THEN -n ELSE n
Single(n) == IF n = 0 THEN <<0, 0>> ELSE
   LET a == Abs(n) e == Log2(a) f == a * P2(23 - e) - P2(23) IN <<(IF n < 0 THEN 32768 ELSE 0) + (127 + e) * 128 + f \div 65536, f % 65536>>
\* the upper word of a double; the lower is zero for integers below 2^20
Double(n) == IF n = 0 THEN <<0, 0>> ELSE
   LET a == Abs(n) e == Log2(a) f == a * P2(20 - e) - P2(20) IN <<(IF n < 0 THEN 32768 ELSE 0) + (1023 + e) * 16 + f \div 65536, f % 65536>>
Bits(n, fs) == IF fs = 4 THEN Single(n) ELSE Double(n)
Carry(c) == <<(c[1] + (c[2] \div 65536)) % 65536, c[2] % 65536>>
Sum(ws, fs) == FoldLeft(LAMBDA acc, w : TLCEval(LET b == Bits(w, fs) IN Carry(<<acc[1] + b[1], acc[2] + b[2]>>)), <<0, 0>>, ws)
=============================================================================
