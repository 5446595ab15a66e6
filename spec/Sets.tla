-------------------------------- MODULE Sets --------------------------------
(* Sets and subsets as value objects.  A set slot holds the colouring it was
   made from (0: no set); a subset slot holds a reference to one colour of a
   set slot and stays usable until that set is re-made, re-assigned or
   destroyed.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NSet, NSub
VARIABLES set, sub
svars == <<set, sub>>
SetSlots == 1..NSet
SubSlots == 1..NSub
NoSub == [k |-> 0, c |-> 0]

SetsInit == set = [k \in SetSlots |-> 0] /\ sub = [q \in SubSlots |-> NoSub]
\* references into a set that changes are no longer usable
Detach(k) == [q \in SubSlots |-> IF sub[q].k = k THEN NoSub ELSE sub[q]]

Make(k, f) == set' = [set EXCEPT ![k] = f] /\ sub' = Detach(k)
\* copy construction and assignment give an independent set of the same colouring
Copy(k, j) == set[j] # 0 /\ k # j /\ set' = [set EXCEPT ![k] = set[j]] /\ sub' = Detach(k)
Assign(k, j) == set[j] # 0 /\ set[k] # 0 /\ set' = [set EXCEPT ![k] = set[j]] /\ sub' = (IF k = j THEN sub ELSE Detach(k))
Drop(k) == set[k] # 0 /\ set' = [set EXCEPT ![k] = 0] /\ sub' = Detach(k)
TakeSub(q, k, c) == set[k] # 0 /\ sub' = [sub EXCEPT ![q] = [k |-> k, c |-> c]] /\ UNCHANGED set
CopySub(q, p) == sub[p].k # 0 /\ sub' = [sub EXCEPT ![q] = sub[p]] /\ UNCHANGED set
=============================================================================
