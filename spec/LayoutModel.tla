---------------------------- MODULE LayoutModel ----------------------------
(* Design model: for every lattice, node grid and kind within the bounds, the
   layout is a bijection (property C01), and the re-creation of a lattice
   leaves no trace of the previous one (part of C20).                        *)
EXTENDS Layout
CONSTANTS MaxExt, MaxNodes, Ndim
VARIABLES kind, L, M
vars == <<kind, L, M>>
Exts == [1..Ndim -> 1..MaxExt]
Machines == { m \in [1..Ndim -> 1..MaxNodes] : ProdSeq(m) <= MaxNodes }
Fits(k, l, m) == Representable(k, l) /\ \A i \in 1..Ndim : (l[i] \div MinBlock(k, Ndim)[i]) % m[i] = 0
Create(k, l, m) == Fits(k, l, m) /\ kind' = k /\ L' = l /\ M' = m
Init == kind = "none" /\ L = [i \in 1..Ndim |-> 0] /\ M = [i \in 1..Ndim |-> 0]
Next == \E k \in Kinds, l \in Exts, m \in Machines : kind = "none" /\ Create(k, l, m)
Spec == Init /\ [][Next]_vars

Laid == kind # "none"
S == Sub(L, M)
Blocks == { c \in [1..Ndim -> 0..(MaxNodes - 1)] : \A i \in 1..Ndim : c[i] < M[i] }
LayoutBijective == Laid =>
  /\ \A x \in AllCoords(L) : LET i == LinearIndex(kind, x, S) IN
        /\ i \in 0..(Vol(S) - 1)
        /\ SiteOf(kind, NodeCoord(x, S), i, S) = x
  /\ \A c \in Blocks : \A i \in 0..(Vol(S) - 1) :
        LET x == SiteOf(kind, c, i, S) IN
        /\ InLattice(x, L) /\ NodeCoord(x, S) = c /\ LinearIndex(kind, x, S) = i
\* sites of one colour are contiguous in the local order
ColourBlocks == Laid => \A c \in Blocks : \A i \in 0..(Vol(S) - 1) :
        Colour(kind, SiteOf(kind, c, i, S)) = i \div (Vol(S) \div NColours(kind, Ndim))
=============================================================================
