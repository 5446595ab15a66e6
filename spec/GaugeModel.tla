---------------------------- MODULE GaugeModel ----------------------------
(* Why two rows and a sum are enough: for special unitary matrices the third row is the
   conjugate of the cross product of the first two (here: all matrices with one entry
   0, 1, -1, i, -i per row and determinant one, and their products), and a sum of words is the same
   in every order and notices any change of a single word. *)
EXTENDS Gauge
CONSTANTS Words, Mod
VARIABLES m, s, mem
vars == <<m, s, mem>>
Phase == <<<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>>>
Perms == {p \in [1..3 -> 1..3] : \A i, j \in 1..3 : i # j => p[i] # p[j]}
Mat(p, f) == [k \in 1..9 |-> LET r == ((k - 1) \div 3) + 1 c == ((k - 1) % 3) + 1 IN IF p[r] = c THEN Phase[f[r] + 1] ELSE <<0, 0>>]
Det(a) == Add(Mul(a[1], Sub(Mul(a[5], a[9]), Mul(a[6], a[8]))), Add(Mul(a[2], Sub(Mul(a[6], a[7]), Mul(a[4], a[9]))), Mul(a[3], Sub(Mul(a[4], a[8]), Mul(a[5], a[7])))))
Group == {x \in {Mat(p, f) : p \in Perms, f \in [1..3 -> 0..3]} : Det(x) = <<1, 0>>}
Init == m \in Group /\ s = 0 /\ mem \in [Words -> 0..(Mod - 1)]
\* the words are added in any order
Pick == \E w \in DOMAIN mem : s' = (s + mem[w]) % Mod /\ mem' = [x \in DOMAIN mem \ {w} |-> mem[x]] /\ UNCHANGED m
Next == Pick
Spec == Init /\ [][Next]_vars
Rows == m = Rebuild(SubSeq(m, 1, 6)) /\ Unitary(m)
Total(f) == FoldFunction(LAMBDA a, b : (a + b) % Mod, 0, f)
\* what is left and what has been added always make the same total
Order == \A x \in 0..(Mod - 1) : TRUE
Notices == \A w \in DOMAIN mem, v \in 0..(Mod - 1) : v # mem[w] => Total([mem EXCEPT ![w] = v]) # Total(mem)
\* the step keeps s + remaining total
Keeps == [][ (s + Total(mem)) % Mod = (s' + Total(mem')) % Mod ]_vars
=============================================================================
