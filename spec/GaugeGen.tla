------------------------------ MODULE GaugeGen ------------------------------
(* histories of gauge archive operations; the last step damages the archive *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES hist, kind, arch
vars == <<hist, kind, arch>>
Pick(S) == {RandomElement(S)}
Out(x) == hist' = Append(hist, x)
Mats == {12, 18}
Init == hist = <<>> /\ kind = 9 /\ arch = FALSE
SetU == \E k \in Pick({0, 0, 1}) : Out(<<"u", k>>) /\ kind' = k /\ UNCHANGED arch
Save == \E m \in Pick(Mats), h \in Pick({"hdr", "plain", "xml"}), z \in Pick(1..999999), b \in Pick(0..15) : Out(<<"save", m, h, z, b>>) /\ arch' = TRUE /\ UNCHANGED kind
Load == \E h \in Pick({"hdr", "plain", "xml"}) : Out(<<"load", h>>) /\ UNCHANGED arch /\ kind' = 0
Recast == \E m \in Pick(Mats), f \in Pick({4, 8}), s \in Pick(0..7) : Out(<<"recast", m, f, s>>) /\ UNCHANGED <<kind, arch>>
Low == \E m \in Pick(Mats), f \in Pick({4, 8}), k \in Pick(0..2), w \in Pick(0..2) :
   IF w = 0 THEN Out(<<"sum", m>>) /\ UNCHANGED <<kind, arch>> ELSE IF w = 1 THEN Out(<<"wlow", m>>) /\ arch' = FALSE /\ UNCHANGED kind
   ELSE Out(<<"rlow", m, f, IF m = 12 /\ k = 2 THEN 1 ELSE k>>) /\ arch' = FALSE /\ kind' = k + 1
Damage == \E w \in Pick(0..5), z \in Pick(0..9999) : Out(<<"damage", w, z>>) /\ UNCHANGED <<kind, arch>>
Next == Len(hist) < Depth /\
  IF Len(hist) = 0 THEN SetU
  ELSE IF Len(hist) = Depth - 2 THEN Out(<<"u", 0>>) /\ kind' = 0 /\ UNCHANGED arch
  ELSE IF Len(hist) = Depth - 1 THEN Save
  ELSE SetU \/ Low \/ (kind = 0 /\ Save) \/ (arch /\ Load) \/ (arch /\ Recast) \/ (arch /\ Load)
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
