------------------------------ MODULE RngModel ------------------------------
(* Positions in the generator's sequence: no two draws of a run use the same
   number (also across scalar and subset draws), restoring a state brings back
   the same numbers, and what a site gets does not depend on the other sites.
   The 47-bit arithmetic is checked against an independent shift-and-add product.  *)
EXTENDS RNG, FiniteSets
CONSTANTS V, MaxN, MaxDraws
VARIABLES pos, saved, used, hist, draws
vars == <<pos, saved, used, hist, draws>>
Comps == 1..MaxN
Sites == 0..(V - 1)
At(p, g, k) == p + k * (V + 1) + g + 1

Init == pos = 0 /\ saved = 0 /\ used = {} /\ hist = <<>> /\ draws = 0
Lattice(n, S) ==
  LET new == {At(pos, g, k) : g \in S, k \in 0..(n - 1)} IN
  /\ draws < MaxDraws /\ draws' = draws + 1
  /\ hist' = Append(hist, [at |-> pos, n |-> n, S |-> S, new |-> new])
  /\ used' = used \cup new /\ pos' = pos + n * (V + 1) /\ UNCHANGED saved
Scalar(n) ==
  LET new == {pos + k + 1 : k \in 0..(n - 1)} IN
  /\ draws < MaxDraws /\ draws' = draws + 1
  /\ hist' = Append(hist, [at |-> pos, n |-> n, S |-> {}, new |-> new])
  /\ used' = used \cup new /\ pos' = pos + n /\ UNCHANGED saved
Save == saved' = pos /\ UNCHANGED <<pos, used, hist, draws>>
\* after a restore the numbers drawn before come again: start a new run
Restore == pos' = saved /\ used' = {} /\ hist' = <<>> /\ UNCHANGED <<saved, draws>>
Next == \/ \E n \in Comps, S \in SUBSET Sites : Lattice(n, S)
        \/ \E n \in Comps : Scalar(n)
        \/ Save \/ Restore
Spec == Init /\ [][Next]_vars

RECURSIVE Total(_)
Total(h) == IF h = <<>> THEN 0 ELSE Cardinality(h[1].new) + Total(Tail(h))
NoReuse == Cardinality(used) = Total(hist)
Fixed == \A i \in 1..(Len(hist) - 1) : hist[i].S # {} => hist[i+1].at = hist[i].at + hist[i].n * (V + 1)
SiteOnly == \A i, j \in 1..Len(hist) : hist[i].at = hist[j].at /\ hist[i].n = hist[j].n =>
               \A g \in hist[i].S \cap hist[j].S : \A k \in 0..(hist[i].n - 1) : At(hist[i].at, g, k) \in hist[i].new \cap hist[j].new

\* arithmetic: bits of a word sequence, product by shift and add modulo 2^47
Bit(x, i) == (x[(i \div 12) + 1] \div (2 ^ (i % 12))) % 2
AddW(x, y) == LET a == x[1] + y[1]  b == x[2] + y[2] + (a \div 4096)  c == x[3] + y[3] + (b \div 4096)  d == x[4] + y[4] + (c \div 4096)
              IN <<a % 4096, b % 4096, c % 4096, d % 2048>>
SlowMul(x, y) == FoldLeft(LAMBDA acc, i : LET s == TLCEval(AddW(acc.sum, IF Bit(y, i) = 1 THEN acc.sh ELSE <<0, 0, 0, 0>>))
                                              d == TLCEval(AddW(acc.sh, acc.sh)) IN [sum |-> s, sh |-> d],
                          [sum |-> <<0, 0, 0, 0>>, sh |-> x], [i \in 1..47 |-> i - 1]).sum
Samples == {Mult, One, DefaultSeed, <<4095, 4095, 4095, 2047>>, <<0, 1, 0, 1024>>, <<3121, 9, 4000, 1717>>}
ASSUME \A x, y \in Samples : Mul(x, y) = SlowMul(x, y)
ASSUME \A n \in {1, 2, 7, 17, 33} : Pow(Mult, n) = SiteMult(n)[n]
ASSUME \A v \in {4, 16} : \A k \in 0..2, g \in 0..(v - 1) : Skewed(SiteMult(v)[g + 1], Stride(v), 3)[k + 1] = Pow(Mult, k * (v + 1) + g + 1)
=============================================================================
