---------------------------- MODULE DispatchGen -----------------------------
(* work to hand out: every combination of few indices and few threads, then random ones
   <<threads, indices, kind>>; kinds: 0 plain, 1 each thread of an outer team of two asks,
   2 the number of threads is set by a call; 3 with dynamic adjustment of the team        *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, T, Depth
VARIABLES hist
R(S) == RandomElement(S)
Init == hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E h \in {TLCEval(IF Len(hist) < (N + 1) * T THEN <<1 + (Len(hist) % T), Len(hist) \div T, 0>>
                             ELSE <<R(1..40), R({R(0..70), R(0..70), R(71..5000), R(1000000..2000000000), R({16777216, 268435456, 1073741824, 2147480000})}), R({0, 0, 1, 2, 3})>>)} : hist' = Append(hist, h)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
