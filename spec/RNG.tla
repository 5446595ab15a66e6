-------------------------------- MODULE RNG --------------------------------
(* The lattice random number generator: a multiplicative congruential generator
   modulo 2^47 held as four 12-bit words (the top one 11 bits, least significant
   first), drawn in parallel by giving every global site its own offset.
   A draw of a field with n components per site uses, for component k of site g,
   position k*(Vol+1) + g + 1 of the generator's sequence counted from the current
   state, and moves the state on by n*(Vol+1) positions whatever the subset.     *)
EXTENDS Integers, Sequences, SequencesExt, TLC

Mult == <<1645, 712, 1498, 1222>>
DefaultSeed == <<11, 0, 0, 0>>

Mul(x, y) ==
  LET i0 == x[1] * y[1]
      i1 == x[2] * y[1] + x[1] * y[2] + (i0 \div 4096)
      i2 == x[3] * y[1] + x[2] * y[2] + x[1] * y[3] + (i1 \div 4096)
      i3 == x[4] * y[1] + x[3] * y[2] + x[2] * y[3] + x[1] * y[4] + (i2 \div 4096)
  IN <<i0 % 4096, i1 % 4096, i2 % 4096, i3 % 2048>>
One == <<1, 0, 0, 0>>
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN One ELSE LET h == TLCEval(Pow(x, n \div 2)) q == TLCEval(Mul(h, h)) IN IF n % 2 = 1 THEN Mul(q, x) ELSE q

\* Site multipliers for a lattice of V sites: a^(g+1), and the stride a^(V+1)
SiteMult(V) == FoldLeft(LAMBDA acc, g : Append(acc, IF acc = <<>> THEN Mult ELSE TLCEval(Mul(acc[Len(acc)], Mult))), <<>>, [g \in 1..V |-> g])
Stride(V) == Pow(Mult, V + 1)

\* the uniform number of a state, as an integer multiple of 2^-30 (rounded down)
Uniform30(s) == s[4] * 524288 + s[3] * 128 + (s[2] \div 32)
\* single precision: 24 significant bits in each of two roundings
Near(n, s) == n - Uniform30(s) <= 160 /\ Uniform30(s) - n <= 160

\* states used for the n components of a site, starting from first, stepping by st
Skewed(first, st, n) == FoldLeft(LAMBDA acc, k : Append(acc, IF acc = <<>> THEN first ELSE TLCEval(Mul(acc[Len(acc)], st))), <<>>, [k \in 1..n |-> k])
AfterLattice(seed, st, n) == Mul(seed, Pow(st, n))
AfterScalar(seed, n) == Mul(seed, Pow(Mult, n))
=============================================================================
