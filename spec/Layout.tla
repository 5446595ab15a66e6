------------------------------- MODULE Layout -------------------------------
(* Distribution of the sites over nodes and local indices.  A layout kind
   gives the local index of a site in its node's block (the sub-grid) and the
   reverse; the nodes form a grid M (one entry per direction).               *)
EXTENDS Lattice

Kinds == {"lex", "cb2", "cb3d", "cb32"}

\* lexicographic order inside a block; in the cb3d kind the last direction is fastest
Rot(L) == <<L[Len(L)]>> \o SubSeq(L, 1, Len(L) - 1)
UnRot(L) == Tail(L) \o <<Head(L)>>
LexK(kind, x, L) == IF kind = "cb3d" THEN Lex(Rot(x), Rot(L)) ELSE Lex(x, L)
CoordK(kind, g, L) == IF kind = "cb3d" THEN UnRot(CoordAt(g, Rot(L))) ELSE CoordAt(g, L)

\* smallest block the kind can lay out; a lattice must be a multiple of it
MinBlock(kind, nd) ==
  CASE kind = "lex"  -> [m \in 1..nd |-> 1]
    [] kind = "cb2"  -> [m \in 1..nd |-> IF m = 1 THEN 2 ELSE 1]
    [] kind = "cb3d" -> [m \in 1..nd |-> IF m = 1 THEN 2 ELSE 1]
    [] kind = "cb32" -> [m \in 1..nd |-> IF m = 1 THEN 4 ELSE 2]

Representable(kind, L) ==
  /\ \A m \in 1..Len(L) : L[m] > 0
  /\ \A m \in 1..Len(L) : L[m] % MinBlock(kind, Len(L))[m] = 0

\* grids of n nodes that divide the lattice into representable blocks
RECURSIVE Grids(_, _)
Grids(n, nd) == IF nd = 0 THEN (IF n = 1 THEN {<<>>} ELSE {})
                ELSE UNION { { <<d>> \o g : g \in Grids(n \div d, nd - 1) } : d \in {k \in 1..n : n % k = 0} }
FitsOn(kind, L, n) ==
  /\ Representable(kind, L)
  /\ \E M \in Grids(n, Len(L)) :
        \A m \in 1..Len(L) : (L[m] \div MinBlock(kind, Len(L))[m]) % M[m] = 0

Colour(kind, x) == CASE kind = "lex" -> 0 [] kind = "cb2" -> Parity(x) [] kind = "cb3d" -> ParityButLast(x) [] kind = "cb32" -> Colour32(x)
NColours(kind, nd) == CASE kind = "lex" -> 1 [] kind = "cb2" -> 2 [] kind = "cb3d" -> 2 [] kind = "cb32" -> Pow2(nd + 1)

Sub(L, M) == [m \in 1..Len(L) |-> L[m] \div M[m]]
NodeCoord(x, S) == [m \in 1..Len(S) |-> x[m] \div S[m]]

\* local index of global coordinate x in a block of size S
LinearIndex(kind, x, S) ==
  LET B == MinBlock(kind, Len(S))
      cbS == [m \in 1..Len(S) |-> S[m] \div B[m]]
      cbx == [m \in 1..Len(S) |-> (x[m] \div B[m]) % cbS[m]]
  IN  LexK(kind, cbx, cbS) + Colour(kind, x) * (Vol(S) \div NColours(kind, Len(S)))

\* the reverse, as the site of the block at node coordinate c with that index
SiteOf(kind, c, i, S) ==
  LET nc == NColours(kind, Len(S))
      B == MinBlock(kind, Len(S))
      per == Vol(S) \div nc
      cbS == [m \in 1..Len(S) |-> S[m] \div B[m]]
      corner == CoordK(kind, i % per, cbS)
      base == [m \in 1..Len(S) |-> c[m] * S[m] + corner[m] * B[m]]
      inside == { [m \in 1..Len(S) |-> base[m] + o[m]] : o \in {CoordAt(k, B) : k \in 0..(Vol(B) - 1)} }
  IN  CHOOSE x \in inside : Colour(kind, x) = i \div per
=============================================================================
