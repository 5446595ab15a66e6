------------------------------ MODULE TextGen ------------------------------
(* histories of text I/O: writers and readers of files and buffers.  items: the types of the
   words of the current content, cur: the next one to be read                              *)
EXTENDS TextVals, Json
CONSTANTS Depth, RealType
VARIABLES hist, k, items, cur, bad, file
vars == <<hist, k, items, cur, bad, file>>
Init == hist = <<>> /\ k = "" /\ items = <<>> /\ cur = 1 /\ bad = FALSE /\ file = <<>>
Out(x) == hist' = Append(hist, x)
V(t, z, n, neg, m, j, x) ==
  IF t \in Ints THEN <<t, IntText(t, z, n, neg)>>
  ELSE IF t = "float" THEN Script(t, Exact(m, j, n % 7, neg, Pow5))
  ELSE IF t = "double" THEN (IF z <= 2 THEN Script(t, Exact(m, j, n % 7, neg, Pow5)) ELSE Script(t, AnyDec(8 + (n % 8), x, neg)))
  ELSE IF t = "bool" THEN <<t, IF neg THEN 1 ELSE 0>>
  ELSE IF t = "char" THEN <<t, Word(1)>> ELSE <<"string", Word(1 + (n % 12))>>
Types == <<"int", "uint", "short", "ushort", "long", "ulong", "llong", "float", "double", "bool", "char", "string">>
Comps == <<<<"Real", 1>>, <<"RealD", 1>>, <<"Integer", 1>>, <<"Boolean", 1>>, <<"Complex", 2>>, <<"ComplexD", 2>>, <<"ColorVector", 6>>, <<"SpinVector", 8>>, <<"ColorMatrix", 18>>, <<"SpinMatrix", 32>>, <<"Fermion", 24>>, <<"Seed", 4>>>>
WordType(o) == IF o \in {"RealD", "ComplexD"} THEN "double" ELSE IF o \in {"Integer", "Seed"} THEN "int" ELSE IF o = "Boolean" THEN "bool" ELSE RealType
WVal(ty, z, neg) == V(ty, 3, 1 + z, neg, RandomElement(0..9999), RandomElement(0..3), RandomElement(-20..20))
OpenIt == \E q \in Pick({"FW", "FW", "FR", "BW", "BR", "BR"}), h \in Pick(0..2) :
  LET kk == IF (items = <<>> /\ q = "BR") \/ (file = <<>> /\ q = "FR") THEN "FW" ELSE q IN
  Out(<<"open", kk, IF kk = "FW" \/ kk = "FR" THEN h % 2 ELSE h>>) /\ k' = kk /\ cur' = 1 /\ bad' = (kk = "BW" /\ h # 1)    \* a buffer that starts from a text is not read back
  /\ items' = (IF kk = "FW" \/ kk = "BW" THEN <<>> ELSE IF kk = "FR" THEN file ELSE items) /\ file' = (IF kk = "FW" THEN <<>> ELSE file)
\* a file that another program wrote
Prep == \E n \in Pick(1..6), seed \in Pick(1..1000) :
  LET Tok(i) == RandomElement({1, 2, 3}) \* evaluated once per use below
  IN \E ks \in {TLCEval([i \in 1..n |-> RandomElement({"int", "long", "float", "double", "uint"})])} :
     LET text(i) == LET ty == ks[i] IN
           IF ty = "float" THEN NumTok(RandomElement(0..2), RandomElement(0..2), RandomElement(0..3), RandomElement({TRUE, TRUE, FALSE}), RandomElement(1..3), RandomElement(-9..9))
           ELSE IF ty = "double" THEN NumTok(RandomElement(0..2), RandomElement(0..2), RandomElement(1..7), TRUE, RandomElement(0..8), RandomElement({0, -200, 31, 250, 7, -1}))
           ELSE NumTok(IF ty = "uint" THEN 0 ELSE RandomElement(0..2), RandomElement(0..3), RandomElement(1..8), FALSE, 0, 0)
         RECURSIVE All(_)
         All(i) == IF i > n THEN <<>> ELSE Sep \o text(i) \o All(i + 1)
     IN \E b \in {TLCEval(All(1))}, nl \in Pick(0..1) : Out(<<"prepare", b \o (IF nl = 1 THEN <<10>> ELSE <<>>)>>) /\ items' = ks /\ file' = ks /\ UNCHANGED <<k, cur, bad>>
DoWrite == \E i \in Pick(1..12), z \in Pick(0..9), n \in Pick(0..40), neg \in Pick({TRUE, FALSE}), m \in Pick({0, 1, 7, 128, 999, 31415, 131071, 99999}), mm \in Pick(1..16000000), big \in Pick(0..3), j \in Pick(0..3), x \in Pick(-300..300), s \in {Sep}, var \in Pick(0..3) :
  LET mx == IF big = 0 THEN IF j = 0 THEN 999 - (m % 900) ELSE m ELSE IF j = 0 THEN 1 + (mm % 999) ELSE 1 + (mm % 3000000) IN
  \E v \in {TLCEval(V(Types[i], z, n, neg, mx, j, x))} : Out(<<"w", "-", var, <<v, <<"string", s>>>>>>) /\ items' = Append(items, Types[i]) /\ UNCHANGED <<k, cur, bad, file>>
DoComp == \E i \in Pick(1..12), z \in Pick(0..30), s \in {Sep} :
  LET o == Comps[i][1] n == Comps[i][2] IN
  \E vs \in {TLCEval([q \in 1..n |-> WVal(WordType(o), RandomElement(0..20), RandomElement({TRUE, FALSE}))])} :
    /\ hist' = hist \o << <<"w", o, 0, vs>>, <<"w", "-", 0, <<<<"string", s>>>>>> >>
    /\ items' = Append(items, IF n = 1 THEN WordType(o) ELSE IF o = "Seed" THEN "int" ELSE "string") \o (IF o = "Seed" THEN <<"int", "int", "int">> ELSE <<>>) /\ UNCHANGED <<k, cur, bad, file>>
\* a run of reals which a composite can take
DoRun == \E i \in Pick(5..12), s \in {Sep} : LET o == Comps[i][1] n == Comps[i][2] IN
  \E vs \in {TLCEval([q \in 1..(2 * n) |-> IF q % 2 = 0 THEN <<"string", Sep>> ELSE WVal(WordType(o), RandomElement(0..20), RandomElement({TRUE, FALSE}))])} :
    Out(<<"w", "-", 0, vs>>) /\ items' = items \o [q \in 1..n |-> WordType(o)] /\ UNCHANGED <<k, cur, bad, file>>
Fits == {i \in 1..12 : LET n == Comps[i][2] IN cur + n - 1 <= Len(items) /\ \A q \in cur..(cur + n - 1) : items[q] = WordType(Comps[i][1])}
Big == {i \in Fits : Comps[i][2] > 1}
DoRead == \E z \in Pick(1..14), var \in Pick(0..1) :
  IF cur > Len(items) \/ bad THEN Out(<<"r", "-", var, IF z < 5 THEN "int" ELSE IF z < 10 THEN "string" ELSE "double", 1>>) /\ bad' = TRUE /\ UNCHANGED <<k, items, cur, file>>
  ELSE IF z <= 6 /\ Big # {} THEN \E i \in Pick(Big) : Out(<<"r", Comps[i][1], var, "-", Comps[i][2]>>) /\ cur' = cur + Comps[i][2] /\ UNCHANGED <<k, items, bad, file>>
  ELSE IF z <= 3 /\ Fits # {} THEN \E i \in Pick(Fits) : Out(<<"r", Comps[i][1], var, "-", Comps[i][2]>>) /\ cur' = cur + Comps[i][2] /\ UNCHANGED <<k, items, bad, file>>
  ELSE IF z = 14 /\ items[cur] \in {"int", "uint", "string", "long"} THEN Out(<<"r", "-", var, IF items[cur] = "string" THEN "int" ELSE IF items[cur] = "uint" THEN "int" ELSE "short", 1>>) /\ bad' = TRUE /\ UNCHANGED <<k, items, cur, file>>
  ELSE IF z = 13 /\ items[cur] # "char" THEN Out(<<"r", "-", var, "string", 1>>) /\ cur' = cur + 1 /\ UNCHANGED <<k, items, bad, file>>
  ELSE Out(<<"r", "-", var, items[cur], 1>>) /\ cur' = cur + 1 /\ UNCHANGED <<k, items, bad, file>>
DoClose == \E h \in Pick(0..1) : Out(<<"close", h>>) /\ k' = "" /\ file' = (IF k = "FW" THEN items ELSE file) /\ items' = (IF k = "BW" /\ bad THEN <<>> ELSE items) /\ UNCHANGED <<cur, bad>>
Same == UNCHANGED <<k, items, cur, bad, file>>
Next == Len(hist) < Depth /\ \E z \in Pick(1..20) :
  IF k = "" THEN (IF z <= 4 THEN Prep ELSE OpenIt)
  ELSE IF k \in {"FW", "BW"} THEN (IF z <= 12 /\ Len(items) < 24 THEN DoWrite ELSE IF z <= 14 /\ Len(items) < 24 THEN DoComp ELSE IF z <= 16 THEN DoRun ELSE IF z = 17 THEN Out(<<IF k = "FW" THEN "flush" ELSE "str">>) /\ Same ELSE IF z <= 18 /\ Len(items) < 3 THEN DoWrite ELSE DoClose)
  ELSE IF bad THEN (IF z <= 10 THEN DoRead ELSE DoClose)
  ELSE IF z = 20 \/ (cur > Len(items) /\ z > 6) THEN DoClose ELSE IF z = 19 /\ k = "BR" THEN Out(<<"str">>) /\ Same ELSE DoRead
Spec == Init /\ [][Next]_vars
Emit == Len(hist) >= Depth => PrintT(ToJson(hist))
=============================================================================
