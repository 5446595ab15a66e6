------------------------------ MODULE Lattice ------------------------------
(* Geometry of a periodic hypercubic lattice.  A coordinate is a sequence x
   with 0 <= x[m] < L[m]; the global (lexicographic, first direction fastest)
   index of a site is 0 .. Vol(L)-1.                                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Nd(L) == Len(L)
ProdSeq(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Vol(L) == ProdSeq(L)

RECURSIVE LexFrom(_, _, _)
LexFrom(x, L, m) == IF m > Len(L) THEN 0 ELSE x[m] + L[m] * LexFrom(x, L, m + 1)
Lex(x, L) == LexFrom(x, L, 1)

Stride(L, m) == ProdSeq(SubSeq(L, 1, m - 1))
CoordAt(g, L) == [m \in 1..Len(L) |-> (g \div Stride(L, m)) % L[m]]

InLattice(x, L) == Len(x) = Len(L) /\ \A m \in 1..Len(L) : x[m] >= 0 /\ x[m] < L[m]
Wrap(x, L) == [m \in 1..Len(L) |-> x[m] % L[m]]
AllCoords(L) == { CoordAt(g, L) : g \in 0..(Vol(L) - 1) }

\* neighbour in direction mu (0-based) and orientation isign
Neighbour(x, L, isign, mu) == [m \in 1..Len(L) |-> IF m = mu + 1 THEN (x[m] + isign) % L[m] ELSE x[m]]

\* documented colourings of the predefined sets
Parity(x) == SumSeq(x) % 2
Parity3(x) == SumSeq(SubSeq(x, 1, 3)) % 2
ParityButLast(x) == SumSeq(SubSeq(x, 1, Len(x) - 1)) % 2
RECURSIVE Bits(_, _)
Bits(x, m) == IF m > Len(x) THEN 0 ELSE (x[m] % 2) + 2 * Bits(x, m + 1)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
\* 2^(Nd+1)-colour set: position in the 2^Nd hypercube, and parity of the hypercube
Colour32(x) == Bits(x, 1) + Pow2(Len(x)) * (SumSeq([m \in 1..Len(x) |-> x[m] \div 2]) % 2)
=============================================================================
