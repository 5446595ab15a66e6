----------------------------- MODULE SetsModel -----------------------------
(* Refinement model: sets implemented with per-colour site tables and subsets
   that point to the table of the set they belong to.  With Rebind the copy of
   a set points to its own tables; without it (the code before the repair) the
   invariant fails.                                                          *)
EXTENDS Sets
CONSTANTS NCol, Sites, Rebind
VARIABLES tab,    \* set slot -> table storage: colour -> sites
          ptr,    \* set slot -> slot whose storage the set's subsets use
          sptr    \* subset slot -> slot whose storage the subset uses
vars == <<set, sub, tab, ptr, sptr>>
Col(f, s) == (s * f + s \div f) % NCol
Tables(f) == [c \in 0..(NCol - 1) |-> {s \in Sites : Col(f, s) = c}]
Empty == [c \in 0..(NCol - 1) |-> {}]
Init == SetsInit /\ tab = [k \in SetSlots |-> Empty] /\ ptr = [k \in SetSlots |-> k] /\ sptr = [q \in SubSlots |-> 0]
IMake(k, f) == Make(k, f) /\ tab' = [tab EXCEPT ![k] = Tables(f)] /\ ptr' = [ptr EXCEPT ![k] = k] /\ UNCHANGED sptr
Dup(k, j) == /\ tab' = [tab EXCEPT ![k] = tab[j]]
             /\ ptr' = [ptr EXCEPT ![k] = IF Rebind THEN k ELSE ptr[j]] /\ UNCHANGED sptr
ICopy(k, j) == Copy(k, j) /\ Dup(k, j)
IAssign(k, j) == Assign(k, j) /\ Dup(k, j)
IDrop(k) == Drop(k) /\ tab' = [tab EXCEPT ![k] = Empty] /\ UNCHANGED <<ptr, sptr>>
ITake(q, k, c) == TakeSub(q, k, c) /\ sptr' = [sptr EXCEPT ![q] = ptr[k]] /\ UNCHANGED <<tab, ptr>>
ICopySub(q, p) == CopySub(q, p) /\ sptr' = [sptr EXCEPT ![q] = sptr[p]] /\ UNCHANGED <<tab, ptr>>
Next == \/ \E k \in SetSlots, f \in 1..2 : IMake(k, f)
        \/ \E k, j \in SetSlots : ICopy(k, j) \/ IAssign(k, j)
        \/ \E k \in SetSlots : IDrop(k)
        \/ \E q \in SubSlots, k \in SetSlots, c \in 0..(NCol - 1) : ITake(q, k, c)
        \/ \E q, p \in SubSlots : ICopySub(q, p)
Spec == Init /\ [][Next]_vars
\* the sites seen through a set's subsets are those of its colouring: disjoint and complete
Partition == \A k \in SetSlots : set[k] # 0 =>
   /\ \A c \in 0..(NCol - 1) : tab[ptr[k]][c] = Tables(set[k])[c]
   /\ UNION {tab[ptr[k]][c] : c \in 0..(NCol - 1)} = Sites
   /\ \A c, d \in 0..(NCol - 1) : c # d => tab[ptr[k]][c] \cap tab[ptr[k]][d] = {}
SubsetsRight == \A q \in SubSlots : sub[q].k # 0 => tab[sptr[q]][sub[q].c] = Tables(set[sub[q].k])[sub[q].c]
=============================================================================
