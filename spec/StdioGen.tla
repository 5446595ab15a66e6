------------------------------ MODULE StdioGen ------------------------------
(* histories of statements on QDPIO::cin, cout and cerr *)
EXTENDS TextVals, Json
CONSTANTS Depth, RealType
VARIABLES hist, ff, base, items, cur, bad
vars == <<hist, ff, base, items, cur, bad>>
SS == {"cout", "cerr"}
Init == hist = <<>> /\ ff = [s \in SS |-> "general"] /\ base = [s \in SS |-> "dec"] /\ items = <<>> /\ cur = 1 /\ bad = FALSE
Out(x) == hist' = Append(hist, x)
V(t, z, n, neg, m, j, x, gen, dec) ==
  IF t \in Ints THEN (IF dec THEN <<t, IntText(t, z, n, neg)>> ELSE <<t, Nat2Text(IF t \in {"short", "ushort"} THEN m % 32768 ELSE m, 0)>>)
  ELSE IF t = "double" /\ gen /\ z > 2 THEN Script(t, AnyDec(8 + (n % 8), x, neg))
  ELSE IF t \in Floats THEN Script(t, Exact(m, j, n % 7, neg, Pow5))
  ELSE IF t = "bool" THEN <<t, IF neg THEN 1 ELSE 0>>
  ELSE IF t = "char" THEN <<t, <<RandomElement(1..255)>>>> ELSE <<"string", IF z = 0 THEN <<>> ELSE [i \in 1..(n % 12) |-> RandomElement(1..255)]>>
Types == <<"int", "uint", "short", "ushort", "long", "ulong", "llong", "float", "double", "ldouble", "bool", "char", "string">>
Comps == <<<<"Real", 1>>, <<"RealD", 1>>, <<"Integer", 1>>, <<"Boolean", 1>>, <<"Complex", 2>>, <<"ComplexD", 2>>, <<"ColorVector", 6>>, <<"SpinVector", 8>>, <<"Fermion", 24>>, <<"Seed", 4>>, <<"RealExpr", 1>>, <<"ComplexExpr", 2>>>>
WordType(o) == IF o \in {"RealD", "ComplexD"} THEN "double" ELSE IF o \in {"Integer", "Seed"} THEN "int" ELSE IF o = "Boolean" THEN "bool" ELSE RealType
M(big, m, mm, j) == IF big = 0 THEN m ELSE IF j = 0 THEN 1 + (mm % 999) ELSE 1 + (mm % 3000000)
DoWrite == \E s \in Pick(SS), i \in Pick(1..13), z \in Pick(0..9), n \in Pick(0..40), neg \in Pick({TRUE, FALSE}), m \in Pick({0, 1, 7, 128, 999}), mm \in Pick(1..16000000), big \in Pick(0..3), j \in Pick(0..3), x \in Pick(-300..300), var \in Pick({0, 2}) :
  \E v \in {TLCEval(V(Types[i], z, n, neg, M(big, m, mm, j), j, x, ff[s] = "general", base[s] = "dec"))} :
    Out(<<"w", s, "-", var, <<v>>>>) /\ UNCHANGED <<ff, base, items, cur, bad>>
DoComp == \E s \in Pick(SS), i \in Pick(1..12) : LET o == Comps[i][1] n == Comps[i][2] IN
  \E vs \in {TLCEval([q \in 1..n |-> V(WordType(o), RandomElement(3..5), RandomElement(0..20), base[s] = "dec" /\ RandomElement({TRUE, FALSE}), RandomElement({0, 1, 99, 998}), RandomElement(0..3), RandomElement(-20..20), ff[s] = "general", base[s] = "dec")])} :
    Out(<<"w", s, o, 0, vs>>) /\ UNCHANGED <<ff, base, items, cur, bad>>
DoMan == \E s \in Pick(SS), m \in Pick({"endl", "endl", "flush", "ends"}) : Out(<<"m", s, m>>) /\ UNCHANGED <<ff, base, items, cur, bad>>
DoFlush == \E s \in Pick(SS) : Out(<<"flush", s>>) /\ UNCHANGED <<ff, base, items, cur, bad>>
DoSet == \E s \in Pick(SS), m \in Pick({"hex", "oct", "dec", "dec", "fixed", "scientific", "general", "general", "boolalpha", "noboolalpha", "showpos", "noshowpos", "uppercase", "nouppercase"}) :
  Out(<<"set", s, m>>) /\ ff' = (IF m \in {"fixed", "scientific", "general"} THEN [ff EXCEPT ![s] = m] ELSE ff) /\ base' = (IF m \in {"hex", "oct", "dec"} THEN [base EXCEPT ![s] = m] ELSE base) /\ UNCHANGED <<items, cur, bad>>
DoPrec == \E s \in Pick(SS), p \in Pick(0..12) : Out(<<"prec", s, p>>) /\ UNCHANGED <<ff, base, items, cur, bad>>
Input == \E n \in Pick(1..9) :
  \E ks \in {TLCEval([i \in 1..n |-> RandomElement({"int", "long", "float", "double", "uint", "short", "ulong", "ldouble", "bool", "char", "string", "seed", "ints"})])} :
     LET text(ty) ==
           IF ty = "float" THEN NumTok(RandomElement(0..2), RandomElement(0..2), RandomElement(0..3), RandomElement({TRUE, TRUE, FALSE}), RandomElement(1..3), RandomElement(-9..9))
           ELSE IF ty \in {"double", "ldouble"} THEN NumTok(RandomElement(0..2), RandomElement(0..2), RandomElement(1..7), TRUE, RandomElement(0..8), RandomElement({0, -200, 31, 250, 7, -1}))
           ELSE IF ty = "bool" THEN <<RandomElement(48..49)>> ELSE IF ty = "char" THEN Word(1) ELSE IF ty = "string" THEN Word(RandomElement(1..9))
           ELSE IF ty = "short" THEN NumTok(RandomElement(0..2), 0, RandomElement(1..4), FALSE, 0, 0)
           ELSE NumTok(IF ty \in {"uint", "ulong"} THEN 0 ELSE RandomElement(0..2), RandomElement(0..3), RandomElement(1..8), FALSE, 0, 0)
         four == Sep \o text("int") \o Sep \o text("int") \o Sep \o text("int") \o Sep \o text("int")
         RECURSIVE All(_)
         All(i) == IF i > n THEN <<>> ELSE (IF ks[i] \in {"seed", "ints"} THEN four ELSE Sep \o text(ks[i])) \o All(i + 1)
     IN \E b \in {TLCEval(All(1))} : Out(<<"input", b>>) /\ items' = ks /\ cur' = 1 /\ bad' = FALSE /\ UNCHANGED <<ff, base>>
R(o, t, n, nb) == Out(<<"r", o, 0, t, n>>) /\ cur' = cur + 1 /\ bad' = nb /\ UNCHANGED <<ff, base, items>>
DoRead == \E z \in Pick(1..14), n \in Pick(0..3) :
  IF cur > Len(items) THEN R("-", IF z < 5 THEN "int" ELSE IF z < 10 THEN "string" ELSE "double", 1, TRUE)
  ELSE LET ty == items[cur] IN
    IF ty = "seed" THEN R("Seed", "-", 4, FALSE) ELSE IF ty = "ints" THEN R("A", IF z <= 7 THEN "int" ELSE "double", 4, FALSE)
    ELSE IF ty = RealType /\ z <= 6 THEN R("Real", "-", 1, FALSE) ELSE IF ty = "double" /\ z <= 9 THEN R("RealD", "-", 1, FALSE) ELSE IF ty = "int" /\ z <= 6 THEN R("Integer", "-", 1, FALSE) ELSE IF ty = "bool" /\ z <= 6 THEN R("Boolean", "-", 1, FALSE)
    ELSE IF z = 14 /\ ty = "string" THEN R("-", "int", 1, TRUE) ELSE IF z = 13 /\ ty # "char" THEN R("-", "string", 1, FALSE) ELSE R("-", ty, 1, FALSE)
Next == Len(hist) < Depth /\ \E z \in Pick(1..24) :
  IF z <= 8 THEN DoWrite ELSE IF z <= 10 THEN DoComp ELSE IF z <= 12 THEN DoMan ELSE IF z = 13 THEN DoFlush ELSE IF z <= 15 THEN DoSet ELSE IF z = 16 THEN DoPrec
  ELSE IF items = <<>> \/ bad \/ cur > Len(items) + 1 THEN Input ELSE DoRead
Spec == Init /\ [][Next]_vars
Emit == Len(hist) >= Depth => PrintT(ToJson(hist))
=============================================================================
