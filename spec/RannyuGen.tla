----------------------------- MODULE RannyuGen -----------------------------
(* histories of draws, seeds set, saved and restored, and self-contained states *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES hist, have, held
Out(x) == hist' = Append(hist, x)
Init == hist = <<>> /\ have = {} /\ held = {}
Pick(S) == {RandomElement(S)}
Word == {0, 1, 2047, 2048, 4094, 4095}
Next == Len(hist) < Depth /\ \E k \in Pick(1..16) :
  \/ k <= 4 /\ \E n \in Pick({1, 1, 2, 5, 17}) : Out(<<"draw", n>>) /\ UNCHANGED <<have, held>>
  \/ k \in {5, 6} /\ \E a, b, c, d \in Pick(0..4095), z \in Pick(0..2), e, f, g, h \in Pick(Word) :
        Out(IF z = 0 THEN <<"set", a, b, c, d>> ELSE <<"set", e, f, g, h>>) /\ UNCHANGED <<have, held>>
  \/ k \in {7, 8} /\ \E i \in Pick(0..3) : Out(<<"save", i>>) /\ have' = have \cup {i} /\ UNCHANGED held
  \/ k \in {9, 10} /\ (IF have = {} THEN Out(<<"draw", 3>>) ELSE \E i \in Pick(have) : Out(<<"restore", i>>)) /\ UNCHANGED <<have, held>>
  \/ k = 11 /\ \E i \in Pick(0..2), a, b, c, d \in Pick(0..4095) : Out(<<"hold", i, a, b, c, d>>) /\ held' = held \cup {i} /\ UNCHANGED have
  \/ k \in {12, 13} /\ (IF held = {} THEN Out(<<"save", 0>>) /\ have' = have \cup {0} ELSE (\E i \in Pick(held), n \in Pick({1, 3}) : Out(<<"hdraw", i, n>>)) /\ UNCHANGED have) /\ UNCHANGED held
  \/ k = 14 /\ (IF held = {} THEN Out(<<"draw", 1>>) /\ UNCHANGED held ELSE \E i \in Pick(held), j \in Pick(0..2) : Out(<<"copy", i, j>>) /\ held' = held \cup {j}) /\ UNCHANGED have
  \/ k >= 15 /\ Out(<<"qdp">>) /\ UNCHANGED <<have, held>>
Spec == Init /\ [][Next]_<<hist, have, held>>
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
