------------------------------ MODULE SetsGen ------------------------------
(* generates histories of set operations for replay *)
EXTENDS Sets, Json
CONSTANTS Depth, NFun, NColOf
VARIABLE hist
ColTab == <<4, 2, 5, 3, 2, 3, 7, 2>>
Out(r) == hist' = Append(hist, r)
Init == SetsInit /\ hist = <<>>
Next == Len(hist) < Depth /\ (
  \/ \E k \in SetSlots, f \in 1..NFun : Make(k, f) /\ Out(<<"make", k, f>>)
  \/ \E k, j \in SetSlots : Copy(k, j) /\ Out(<<"copy", k, j>>)
  \/ \E k, j \in SetSlots : Assign(k, j) /\ Out(<<"assign", k, j>>)
  \/ \E k \in SetSlots : Drop(k) /\ Out(<<"drop", k>>)
  \/ \E q \in SubSlots, k \in SetSlots : set[k] # 0 /\
        \E c \in 0..(NColOf[set[k]] - 1) : TakeSub(q, k, c) /\ Out(<<"take", q, k, c>>)
  \/ \E q, p \in SubSlots : CopySub(q, p) /\ Out(<<"copysub", q, p>>))
Spec == Init /\ [][Next]_<<set, sub, hist>>
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
