---------------------------- MODULE RannyuModel ----------------------------
(* The word arithmetic is integer arithmetic modulo W^4, and (for the small word size
   explored) the sequence visits every state exactly once per period: any seed is good. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS W, Mlt
VARIABLES x, start, n
R == INSTANCE Rannyu WITH A <- Mlt
Words == 0..(W - 1)
Num(w) == ((w[1] * W + w[2]) * W + w[3]) * W + w[4]
Init == x \in {<<a, b, c, d>> : a, b, c, d \in Words} /\ start = x /\ n = 0
Next == n < W * W * W * W /\ x' = R!Step(x) /\ n' = n + 1 /\ UNCHANGED start
Spec == Init /\ [][Next]_<<x, start, n>>
InRange == \A i \in 1..4 : x[i] \in Words
Integer == Num(R!Step(x)) = (Num(x) * Num(Mlt) + 1) % (W * W * W * W)
Drawn == R!Hi(x) * W * W + R!Lo(x) = Num(x)
FullPeriod == (n > 0 /\ n < W * W * W * W => x # start) /\ (n = W * W * W * W => x = start)
=============================================================================
