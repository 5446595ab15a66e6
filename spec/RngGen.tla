------------------------------- MODULE RngGen -------------------------------
(* generates histories of draws and seed operations *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, NSub
VARIABLES hist, have
Lat == {"R", "C", "V", "M", "F", "H", "RD", "CD", "MF"}
Sca == {"r", "c", "m", "f", "rd"}
Word == {0, 1, 2, 11, 2047, 4095} 
Out(x) == hist' = Append(hist, x)
Init == hist = <<>> /\ have = {}
Pick(S) == {RandomElement(S)}
Next == Len(hist) < Depth /\ \E k \in Pick(1..12) :
  \/ k <= 5 /\ \E t \in Pick(Lat), s \in Pick(0..(NSub - 1)), w \in Pick(0..1) : Out(<<"rand", t, s, w>>) /\ UNCHANGED have
  \/ k \in {6, 7} /\ \E t \in Pick(Sca) : Out(<<"scal", t>>) /\ UNCHANGED have
  \/ k = 8 /\ \E t \in Pick({"C", "V", "M"}), s \in Pick(0..(NSub - 1)), w \in Pick(0..1) : Out(<<"gauss", t, s, w>>) /\ UNCHANGED have
  \/ k = 9 /\ \E a, b, c \in Pick(0..4095), d \in Pick(0..2047), z \in Pick(0..3), e \in Pick(Word), f \in Pick(Word \ {4095}) :
       Out(IF z = 0 THEN <<"setrn", e, e, e, f>> ELSE <<"setrn", a, b, c, d>>) /\ UNCHANGED have
  \/ k = 10 /\ \E i \in Pick(1..3) : Out(<<"save", i>>) /\ have' = have \cup {i}
  \/ k >= 11 /\ have # {} /\ \E i \in Pick(have) : Out(<<"restore", i>>) /\ UNCHANGED have
  \/ k >= 11 /\ have = {} /\ Out(<<"scal", "r">>) /\ UNCHANGED have
Spec == Init /\ [][Next]_<<hist, have>>
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
