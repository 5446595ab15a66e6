------------------------------- MODULE Rannyu -------------------------------
(* The second generator: linear congruential, x' = (a*x + 1) mod W^4 with x held as
   four words below W, most significant first; the number drawn is x' / W^4.      *)
EXTENDS Integers, Sequences
CONSTANTS W, A       \* word size and multiplier (four words, most significant first)
Step(x) ==
  LET p4 == x[4] * A[4] + 1
      p3 == x[3] * A[4] + x[4] * A[3] + (p4 \div W)
      p2 == x[2] * A[4] + x[3] * A[3] + x[4] * A[2] + (p3 \div W)
      p1 == x[1] * A[4] + x[2] * A[3] + x[3] * A[2] + x[4] * A[1] + (p2 \div W)
  IN <<p1 % W, p2 % W, p3 % W, p4 % W>>
\* the fraction drawn, as two halves of the 4-word integer
Hi(x) == x[1] * W + x[2]
Lo(x) == x[3] * W + x[4]
=============================================================================
