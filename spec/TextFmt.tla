------------------------------ MODULE TextFmt ------------------------------
(* How the text streams print a value, and what a reader takes from a text.
   Texts are sequences of character codes.  A floating point value is
   [neg, d, x]: digits d = <<d1, d2, ...>> (d1 # 0 unless the value is zero),
   meaning d1.d2d3... * 10^x.  Everything is decided on the decimal digits.     *)
EXTENDS Integers, Sequences
Zero == 48
Minus == 45 Plus == 43 Dot == 46
RECURSIVE Nat2Text(_, _)
DigitChar(k, up) == IF k < 10 THEN Zero + k ELSE (IF up THEN 65 ELSE 97) + k - 10
Nat2Base(n, b, up) == LET F[k \in Nat] == IF k < b THEN <<DigitChar(k, up)>> ELSE F[k \div b] \o <<DigitChar(k % b, up)>> IN F[n]
Nat2Text(n, z) == IF n < 10 THEN <<Zero + n>> ELSE Nat2Text(n \div 10, z) \o <<Zero + (n % 10)>>
RECURSIVE Rep(_, _)
Rep(c, n) == IF n <= 0 THEN <<>> ELSE Rep(c, n - 1) \o <<c>>
RECURSIVE Inc(_)
\* add one in the last place; a carry out of the first digit lengthens the sequence
Inc(d) == IF d = <<>> THEN <<1>>
          ELSE IF d[Len(d)] < 9 THEN [d EXCEPT ![Len(d)] = @ + 1] ELSE Inc(SubSeq(d, 1, Len(d) - 1)) \o <<0>>
\* round half to even: does dropping tail t after last kept digit k go up?
Up(k, t) == t # <<>> /\ (t[1] > 5 \/ (t[1] = 5 /\ ((\E i \in 2..Len(t) : t[i] # 0) \/ k % 2 = 1)))
\* n >= 1 significant digits; the result has n digits, or n + 1 after a carry
Round(d, n) == LET p == d \o Rep(0, n - Len(d)) h == SubSeq(p, 1, n) t == SubSeq(p, n + 1, Len(p))
               IN IF Up(h[n], t) THEN Inc(h) ELSE h
RECURSIVE Strip(_)
Strip(d) == IF Len(d) > 1 /\ d[Len(d)] = 0 THEN Strip(SubSeq(d, 1, Len(d) - 1)) ELSE d
Chars(d) == [i \in 1..Len(d) |-> Zero + d[i]]
Expo(x, up) == LET a == IF x < 0 THEN -x ELSE x t == Nat2Text(a, 0)
               IN <<IF up THEN 69 ELSE 101, IF x < 0 THEN Minus ELSE Plus>> \o (IF a < 10 THEN <<Zero>> ELSE <<>>) \o t
Point(i, f) == Chars(i) \o (IF f = <<>> THEN <<>> ELSE <<Dot>> \o Chars(f))
\* rounded to n digits and normalised: <<digits (n of them), exponent>>
Norm(d, x, n) == LET r == Round(d, n) IN IF Len(r) > n THEN <<SubSeq(r, 1, n), x + 1>> ELSE <<r, x>>
IsZero(v) == v.d = <<0>>
General(v, prec, up) == IF IsZero(v) THEN <<Zero>> ELSE
  LET p == IF prec = 0 THEN 1 ELSE prec nd == Norm(v.d, v.x, p) s == Strip(nd[1]) x == nd[2]
  IN IF x < -4 \/ x >= p THEN Point(<<s[1]>>, Tail(s)) \o Expo(x, up)
     ELSE IF x < 0 THEN Point(<<0>>, Rep(0, -x - 1) \o s)
     ELSE LET q == s \o Rep(0, x + 1 - Len(s)) IN Point(SubSeq(q, 1, x + 1), SubSeq(q, x + 2, Len(q)))
Scientific(v, p, up) == LET nd == IF IsZero(v) THEN <<Rep(0, p + 1), 0>> ELSE Norm(v.d, v.x, p + 1)
  IN Point(<<nd[1][1]>>, Tail(nd[1])) \o Expo(nd[2], up)
Fixed(v, p) == LET n == v.x + 1 + p
                   big == IF IsZero(v) \/ n < 0 THEN <<0>> ELSE IF n = 0 THEN (IF Up(0, v.d) THEN <<1>> ELSE <<0>>) ELSE Round(v.d, n)
                   q == Rep(0, p + 1 - Len(big)) \o big
               IN Point(SubSeq(q, 1, Len(q) - p), SubSeq(q, Len(q) - p + 1, Len(q)))
\* fmt: [base, ff (floatfield: "g", "e", "f"), alpha, pos, up, prec]
Default == [base |-> 10, ff |-> "g", alpha |-> FALSE, pos |-> FALSE, up |-> FALSE, prec |-> 6]
Signed(neg, f, t) == (IF neg THEN <<Minus>> ELSE IF f.pos THEN <<Plus>> ELSE <<>>) \o t
ShowFloat(v, f) == Signed(v.neg, f, CASE f.ff = "g" -> General(v, f.prec, f.up) [] f.ff = "e" -> Scientific(v, f.prec, f.up) [] f.ff = "f" -> Fixed(v, f.prec))
SignedInts == {"int", "short", "long", "llong"}
Ints == SignedInts \cup {"uint", "ushort", "ulong"}
Floats == {"float", "double", "ldouble"}
RECURSIVE TextVal(_)
TextVal(t) == IF t = <<>> THEN 0 ELSE TextVal(SubSeq(t, 1, Len(t) - 1)) * 10 + (t[Len(t)] - Zero)
ShowInt(t, txt, f) == IF f.base # 10 THEN Nat2Base(TextVal(txt), f.base, f.up)
                      ELSE (IF f.pos /\ t \in SignedInts /\ txt[1] # Minus THEN <<Plus>> ELSE <<>>) \o txt
ShowBool(b, f) == IF f.alpha THEN (IF b = 1 THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>) ELSE ShowInt("int", <<Zero + b>>, f)
Show(v, f) == CASE v.t \in Ints -> ShowInt(v.t, v.v, f) [] v.t = "bool" -> ShowBool(v.v[1], f) [] v.t \in Floats -> ShowFloat(v, f) [] OTHER -> v.v
(* ---- reading ---- *)
Space == {9, 10, 11, 12, 13, 32}
RECURSIVE Skip(_, _)
Skip(s, p) == IF p <= Len(s) /\ s[p] \in Space THEN Skip(s, p + 1) ELSE p
IsDigit(s, p) == p <= Len(s) /\ s[p] \in 48..57
RECURSIVE Run(_, _)
Run(s, p) == IF IsDigit(s, p) THEN Run(s, p + 1) ELSE p
RECURSIVE WordEnd(_, _)
WordEnd(s, p) == IF p <= Len(s) /\ s[p] \notin Space THEN WordEnd(s, p + 1) ELSE p
SignEnd(s, p) == IF p <= Len(s) /\ s[p] \in {Minus, Plus} THEN p + 1 ELSE p
\* where the number at p ends, and whether it is one
IntEnd(s, p) == Run(s, SignEnd(s, p))
IntOk(s, p) == IsDigit(s, SignEnd(s, p))
FloatParts(s, p) == LET a == SignEnd(s, p) b == Run(s, a) dot == b <= Len(s) /\ s[b] = Dot c == IF dot THEN Run(s, b + 1) ELSE b
                        n == (b - a) + (IF dot THEN c - b - 1 ELSE 0)
                        e == n > 0 /\ c <= Len(s) /\ s[c] \in {69, 101} g == IF e THEN SignEnd(s, c + 1) ELSE c h == IF e THEN Run(s, g) ELSE c
                    IN [a |-> a, b |-> b, dot |-> dot, c |-> c, n |-> n, e |-> e, g |-> g, end |-> h, ok |-> n > 0 /\ (e => h > g)]
RECURSIVE StripLeft(_)
StripLeft(d) == IF Len(d) > 1 /\ d[1] = 0 THEN StripLeft(Tail(d)) ELSE d
Digs(s, p, q) == [i \in 1..(q - p) |-> s[p + i - 1] - Zero]
SignedVal(t) == IF t # <<>> /\ t[1] \in {Minus, Plus} THEN (IF t[1] = Minus THEN -TextVal(Tail(t)) ELSE TextVal(Tail(t))) ELSE TextVal(t)
FloatVal(s, p) == LET P == FloatParts(s, p) ip == Digs(s, P.a, P.b) fp == IF P.dot THEN Digs(s, P.b + 1, P.c) ELSE <<>>
                      all == ip \o fp d == StripLeft(all) x0 == IF P.e THEN SignedVal(SubSeq(s, P.c + 1, P.end - 1)) ELSE 0
                      neg == p <= Len(s) /\ s[p] = Minus
                  IN IF d = <<0>> THEN [neg |-> neg, d |-> <<0>>, x |-> 0]
                     ELSE [neg |-> neg, d |-> Strip(d), x |-> x0 + Len(ip) - 1 - (Len(all) - Len(d))]
\* the canonical text of an integer: no plus sign, no leading zeros
Canon(t) == LET neg == t[1] = Minus u == IF t[1] \in {Minus, Plus} THEN Tail(t) ELSE t
                d == StripLeft([i \in 1..Len(u) |-> u[i] - Zero]) IN (IF neg /\ d # <<0>> THEN <<Minus>> ELSE <<>>) \o Chars(d)
Max(t) == CASE t = "short" -> <<3,2,7,6,7>> [] t = "ushort" -> <<6,5,5,3,5>> [] t = "int" -> <<2,1,4,7,4,8,3,6,4,7>> [] t = "uint" -> <<4,2,9,4,9,6,7,2,9,5>>
            [] t \in {"long", "llong"} -> <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>> [] t = "ulong" -> <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>
LeqD(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ (a = b \/ \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]))
InRange(t, c) == LET neg == c[1] = Minus u == IF neg THEN Tail(c) ELSE c d == [i \in 1..Len(u) |-> u[i] - Zero]
                 IN IF neg THEN t \in SignedInts /\ LeqD(d, Inc(Max(t))) ELSE LeqD(d, Max(t))
\* what a reader at position p of s makes of a request for a t: [ok, v, p]
Take(s, p0, t) == LET p == Skip(s, p0) IN
  IF p > Len(s) THEN [ok |-> FALSE, v |-> <<>>, p |-> p]
  ELSE CASE t \in Ints -> LET q == IntEnd(s, p) c == Canon(SubSeq(s, p, q - 1)) IN
                          [ok |-> IntOk(s, p) /\ InRange(t, c), v |-> IF IntOk(s, p) THEN c ELSE <<>>, p |-> q]
    [] t = "bool" -> LET q == IntEnd(s, p) c == Canon(SubSeq(s, p, q - 1)) IN
                     [ok |-> IntOk(s, p) /\ c \in {<<48>>, <<49>>}, v |-> IF IntOk(s, p) THEN c ELSE <<>>, p |-> q]
    [] t \in Floats -> LET P == FloatParts(s, p) IN [ok |-> P.ok, v |-> IF P.ok THEN FloatVal(s, p) ELSE <<>>, p |-> P.end]
    [] t = "char" -> [ok |-> TRUE, v |-> <<s[p]>>, p |-> p + 1]
    [] t = "string" -> LET q == WordEnd(s, p) IN [ok |-> TRUE, v |-> SubSeq(s, p, q - 1), p |-> q]
\* the number of decimal digits a value of the type is sure to keep
Sure(t) == CASE t = "float" -> 6 [] t = "double" -> 15 [] t = "ldouble" -> 18
\* the components of a composite, in the order in which they are written and read
TextOrder(o, n) == IF o = "ColorMatrix" THEN [k \in 1..18 |-> LET m == (k - 1) \div 2 IN 2 * ((m % 3) * 3 + (m \div 3)) + ((k - 1) % 2) + 1]
                   ELSE IF o = "SpinMatrix" THEN [k \in 1..32 |-> LET m == (k - 1) \div 2 IN 2 * ((m % 4) * 4 + (m \div 4)) + ((k - 1) % 2) + 1]
                   ELSE [k \in 1..n |-> k]
=============================================================================
