------------------------------ MODULE TextVals ------------------------------
(* random values and texts for the text I/O histories *)
EXTENDS Integers, Sequences, TLC, TextFmt
Pick(S) == {RandomElement(S)}
RECURSIVE Digits(_)
Digits(n) == IF n = 0 THEN <<>> ELSE Digits(n - 1) \o <<RandomElement(0..9)>>
IntTypes == <<"int", "uint", "short", "ushort", "long", "ulong", "llong">>
Most(t) == Len(Max(t)) - 1
\* the text of an integer of type t: zero, small, any length, the extremes
IntText(t, z, n, neg) ==
  LET body == IF z = 0 THEN <<0>> ELSE IF z = 1 THEN Max(t) ELSE IF z = 2 /\ neg /\ t \in SignedInts THEN Inc(Max(t))
              ELSE StripLeft(Digits(1 + (n % Most(t))))
  IN (IF neg /\ t \in SignedInts /\ body # <<0>> THEN <<Minus>> ELSE <<>>) \o Chars(body)
DigitsOf(n) == LET c == Nat2Text(n, 0) IN [i \in 1..Len(c) |-> c[i] - Zero]
\* a value which binary floating point represents exactly: m * 5^j / 10^j, or m * 10^k
Exact(m, j, k, neg, pw) == LET d == DigitsOf(m * pw[j + 1]) x0 == Len(d) - 1 - j + (IF j = 0 THEN k ELSE 0)
  IN IF m = 0 THEN [neg |-> FALSE, d |-> <<0>>, x |-> 0] ELSE [neg |-> neg, d |-> Strip(d), x |-> x0]
Pow5 == <<1, 5, 25, 125, 625>>
\* any decimal of n digits
AnyDec(n, x, neg) == [neg |-> neg, d |-> <<RandomElement(1..9)>> \o Digits(n - 2) \o <<RandomElement(1..9)>>, x |-> x]
Script(t, v) == <<t, IF v.neg THEN 1 ELSE 0, v.d, v.x>>
\* the text of a number as somebody else might have written it
NumTok(sg, z, i, dot, f, ex) == (CASE sg = 0 -> <<>> [] sg = 1 -> <<Plus>> [] sg = 2 -> <<Minus>>) \o Rep(Zero, z) \o Chars(Digits(i)) \o (IF dot THEN <<Dot>> \o Chars(Digits(f)) ELSE <<>>)
  \o (IF ex = 0 THEN <<>> ELSE IF ex < 0 THEN <<101, Minus>> \o Nat2Text(-ex, 0) ELSE IF ex % 2 = 0 THEN <<69>> \o Nat2Text(ex, 0) ELSE <<101, Plus>> \o Nat2Text(ex, 0))
Word(n) == [i \in 1..n |-> IF i = 1 THEN RandomElement(97..122) ELSE RandomElement(33..255)]
Sep == RandomElement({<<32>>, <<10>>, <<9>>, <<32, 32>>, <<10, 10, 32>>})
=============================================================================
