----------------------------- MODULE LatFileGen -----------------------------
(* histories of lattice file operations: sessions of writing, then of reading *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, NSub
VARIABLES hist, mode, ty, left
vars == <<hist, mode, ty, left>>
Pick(S) == {RandomElement(S)}
Out(x) == hist' = Append(hist, x)
Types == {"R", "RD", "I", "B", "C", "V", "M", "F", "S", "MD", "H"}
Init == hist = <<>> /\ mode = "none" /\ ty = "R" /\ left = 0
Ids == 1..3
Open == \E t \in Pick(Types), k \in Pick({"file", "buf", "rw"}), n \in Pick(2..4) : mode' = "w" /\ ty' = t /\ left' = n /\ Out(<<"wopen", t, k>>)
Op(w) == \E k \in Pick(1..12), id \in Pick(Ids), a, b, c, d \in Pick(0..999) :
   Out(IF k <= 3 THEN <<w, "all", id>> ELSE IF k <= 5 THEN <<w, "site", id, a, b, c, d>> ELSE IF k <= 7 THEN <<w, "slice", id, a, b>>
       ELSE IF k <= 9 THEN <<w, "time", id, a>> ELSE IF k <= 11 THEN <<w, "sub", id, a % NSub>> ELSE <<w, "array", a % 4>>)
Next == Len(hist) < Depth /\
  \/ mode = "none" /\ Open
  \/ mode = "w" /\ left > 0 /\ Op("w") /\ left' = left - 1 /\ UNCHANGED <<mode, ty>>
  \/ mode = "w" /\ left = 0 /\ Out(<<"wclose">>) /\ mode' = "c" /\ UNCHANGED <<ty, left>>
  \/ mode = "c" /\ \E n \in Pick(2..5), k \in Pick({"file", "buf", "rw"}), m \in Pick(0..2), x \in Pick(0..1) :
       IF m = 0 THEN Open ELSE Out(<<"ropen", k, x>>) /\ mode' = "r" /\ left' = n /\ UNCHANGED ty
  \/ mode = "r" /\ left > 0 /\ Op("r") /\ left' = left - 1 /\ UNCHANGED <<mode, ty>>
  \/ mode = "r" /\ left = 0 /\ Out(<<"rclose">>) /\ mode' = "c" /\ UNCHANGED <<ty, left>>
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
