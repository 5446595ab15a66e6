---------------------------- MODULE LatFileModel ----------------------------
(* How a distributed field becomes one file: the sites are walked in global lexicographic
   order in segments of the length of a node's first extent; the owner of a segment packs
   it from wherever its local order puts the sites, the primary node appends it.  For every
   node grid and every local order the file is the global order, restricted to the subset.
   The reverse (reading) restores every site and leaves the sites outside the subset alone. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Lx, Ly
VARIABLES grid, perm, sub, at, file, mem, phase
vars == <<grid, perm, sub, at, file, mem, phase>>
V == Lx * Ly
Xy(g) == <<g % Lx, g \div Lx>>
Grids == {<<a, b>> : a \in {d \in 1..Lx : Lx % d = 0}, b \in {d \in 1..Ly : Ly % d = 0}}
Inc == Lx \div grid[1]
Owner(g) == LET x == Xy(g) IN (x[1] \div Inc) + grid[1] * (x[2] \div (Ly \div grid[2]))
NLoc == V \div (grid[1] * grid[2])
\* lexicographic position inside the node, then a local permutation
LexIn(g) == LET x == Xy(g) IN (x[1] % Inc) + Inc * (x[2] % (Ly \div grid[2]))
Perms(n) == {[i \in 0..(n - 1) |-> i], [i \in 0..(n - 1) |-> n - 1 - i], [i \in 0..(n - 1) |-> IF n % 2 = 0 THEN (i \div 2) + (i % 2) * (n \div 2) ELSE i]}
Local(g) == perm[LexIn(g)]
Start == [r \in 0..(grid[1] * grid[2] - 1) |-> [i \in 0..(NLoc - 1) |-> CHOOSE g \in 0..(V - 1) : Owner(g) = r /\ Local(g) = i]]
Init == /\ grid \in Grids /\ perm \in Perms(V \div (grid[1] * grid[2])) /\ sub \in SUBSET (0..(V - 1))
        /\ at = 0 /\ file = <<>> /\ mem = Start /\ phase = "write"
Seg == [i \in 1..Inc |-> at + i - 1]
In(s) == SelectSeq(s, LAMBDA g : g \in sub)
WriteSeg == phase = "write" /\ at < V
   /\ file' = file \o [i \in 1..Len(In(Seg)) |-> mem[Owner(at)][Local(In(Seg)[i])]]
   /\ at' = at + Inc /\ UNCHANGED <<grid, perm, sub, mem, phase>>
\* the reader starts from another field
TurnRound == phase = "write" /\ at = V /\ phase' = "read" /\ at' = 0 /\ mem' = [r \in DOMAIN mem |-> [i \in DOMAIN mem[r] |-> -1]] /\ UNCHANGED <<grid, perm, sub, file>>
ReadSeg == phase = "read" /\ at < V
   /\ LET s == In(Seg) IN
      /\ mem' = [mem EXCEPT ![Owner(at)] = [i \in DOMAIN @ |-> IF \E k \in 1..Len(s) : Local(s[k]) = i THEN file[CHOOSE k \in 1..Len(s) : Local(s[k]) = i] ELSE @[i]]]
      /\ file' = SubSeq(file, Len(s) + 1, Len(file))
   /\ at' = at + Inc /\ UNCHANGED <<grid, perm, sub, phase>>
Next == WriteSeg \/ TurnRound \/ ReadSeg
Spec == Init /\ [][Next]_vars
OneOwner == at < V => \A i \in 1..Inc : Owner(Seg[i]) = Owner(at)
GlobalOrder == phase = "write" /\ at = V => file = In([g \in 1..V |-> g - 1])
Restored == phase = "read" /\ at = V => file = <<>> /\ \A g \in 0..(V - 1) : mem[Owner(g)][Local(g)] = IF g \in sub THEN g ELSE -1
=============================================================================
