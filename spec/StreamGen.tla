----------------------------- MODULE StreamGen -----------------------------
(* Generates histories of stream operations.  The content is a sequence of items, each with
   a shape; a write at an item's start replaces it by another value of that shape, reads
   follow the shapes.  cur is the item index where the next read/write takes place
   (for the in-memory reader-writer: cur reads, put writes).                        *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, MaxItems
VARIABLES hist, kind, items, file, cur, put, last
vars == <<hist, kind, items, file, cur, put, last>>
Pick(S) == {RandomElement(S)}
Out(x) == hist' = Append(hist, x)
Prims == <<"char", "short", "ushort", "int", "uint", "long", "ulong", "llong", "float", "double", "bool", "cf", "cd">>
Elems == <<"int", "double", "float", "short", "cf", "char">>
Shape(c, t, e, a, b, d) ==
  CASE c <= 13 -> <<"P", Prims[c]>>
    [] c \in {14, 15} -> <<"desc", "x", a * 3>> [] c \in {16, 17} -> <<"line", "x", a * 5 + b>>
    [] c \in {18, 19} -> <<"A1", Prims[IF t = 11 THEN 4 ELSE t], a>>
    [] c \in {20, 21} -> <<"A2", Elems[e], a, b>> [] c \in {22, 23} -> <<"A3", Elems[e], a, b, d>>
    [] c = 24 -> <<"A4", Elems[e], a, b, d, 1 + ((a + b) % 2)>> [] c = 25 -> <<"A5", Elems[e], a, b, d, 1 + ((a + d) % 2), 1 + ((b + d) % 3)>>
    [] c = 26 -> <<"AN", Elems[e], a, b, d>> [] c = 27 -> <<"AN", Elems[e], a>> [] c = 28 -> <<"AN", Elems[e], a, b, d, 2, 1 + (a % 2)>>
    [] c = 29 -> <<"V", Elems[e], a>> [] c = 30 -> <<"L", Elems[e], a>> [] c = 31 -> <<"O", Elems[e], a>>
    [] c = 32 -> <<"M", Elems[e], a>> [] c = 33 -> <<"R", Elems[e]>>
    [] c = 34 -> <<"N1", Prims[t], a>> [] c = 35 -> <<"N2", Elems[e], a, b>>
    [] c = 36 -> <<"W", "x", 1, a * 2>> [] c = 37 -> <<"W", "x", 2, a>> [] c = 38 -> <<"W", "x", 4, a>> [] c = 39 -> <<"W", "x", 8, a>>
    [] c = 40 -> <<"AA", "int", a, b>> [] c = 41 -> <<"VP", "x", a>> [] c = 42 -> <<"MA", "x", a, b>> [] c = 43 -> <<"LV", "x", a>> [] c = 44 -> <<"AR", "x", a>> [] c = 45 -> <<"MP", "x", a>>
    [] c = 46 -> <<"Q", "Real">> [] c = 47 -> <<"Q", "Complex">> [] c = 48 -> <<"Q", "ColorVector">> [] c = 49 -> <<"Q", "ColorMatrix">> [] c = 50 -> <<"Q", "Fermion">>
    [] c = 51 -> <<"Q", "Integer">> [] c = 52 -> <<"Q", "RealD">> [] c = 53 -> <<"Q", "Boolean">> [] c = 54 -> <<"Q", "ComplexD">> [] c = 55 -> <<"Q", "SpinMatrix">>
    [] c = 56 -> <<"QA", "Real", a>> [] c = 57 -> <<"QA", "Complex", a>> [] c = 58 -> <<"QA2", "Real", a, b>> [] c = 59 -> <<"Q", "Seed">> [] c = 60 -> <<"WP", "x", 4, a>>
NShape == 60
Init == hist = <<>> /\ kind = "" /\ items = <<>> /\ file = <<>> /\ cur = 1 /\ put = 1 /\ last = "s"
N == Len(items)
Qf == Pick(0..1)
W(z) == kind \in {"FW", "FRW", "BW", "BRW"}
R(z) == kind \in {"FR", "FRW", "BR", "BRW"}
One(k) == k # "BRW"
PutAt == IF One(kind) THEN cur ELSE put
OpenIt == \E k \in Pick({"FW", "FW", "FR", "FRW", "BW", "BR", "BRW"}), tr \in Pick(0..1), h \in Pick(0..1), q \in Qf :
  LET keep == (k = "FR" \/ (k = "FRW" /\ tr = 0) \/ k \in {"BR", "BW", "BRW"}) IN
  /\ kind' = k /\ Out(<<"open", k, tr, h, q>>)
  \* buffers start from the last file's contents; a file opened for writing is empty
  /\ items' = (IF keep THEN file ELSE <<>>) /\ file' = (IF keep THEN file ELSE <<>>)
  /\ cur' = 1 /\ put' = 1 /\ last' = "s"
DoWrite == \E c \in Pick(1..NShape), t \in Pick(1..13), e \in Pick(1..6), a \in Pick(0..4), b, d \in Pick(0..3), s \in Pick(1..99999), h \in Pick(0..2), q \in Qf :
  LET at == PutAt sh == IF at <= N THEN items[at].sh ELSE Shape(c, t, e, a, b, d) IN
  /\ at <= MaxItems /\ (kind = "FRW" => last # "r")
  /\ Out(<<"w", at, s, h, q>> \o sh) /\ UNCHANGED <<kind, file>>
  \* the size of nested items depends on the seed: such an item must keep its seed
  /\ items' = (IF at <= N THEN items ELSE Append(items, [sh |-> sh, s |-> s]))
  /\ cur' = (IF One(kind) THEN cur + 1 ELSE cur) /\ put' = (IF One(kind) THEN cur + 1 ELSE put + 1) /\ last' = "w"
DoRead == \E h \in Pick(0..2), q \in Qf : cur <= N /\ (kind = "FRW" => last # "w")
  /\ Out(<<"r", cur, items[cur].s, h, q>> \o items[cur].sh) /\ cur' = cur + 1 /\ put' = (IF One(kind) THEN cur + 1 ELSE put) /\ last' = "r" /\ UNCHANGED <<kind, items, file>>
CanW == W(0) /\ PutAt <= MaxItems /\ (kind = "FRW" => last # "r")
CanR == R(0) /\ cur <= N /\ (kind = "FRW" => last # "w")
DoSeek == \E how \in Pick({"abs", "beg", "rel", "end", "rewind"}), i \in Pick(1..(N + 1)), q \in Qf :
  LET j == IF how = "rewind" THEN 1 ELSE i IN
  Out(<<"seek", how, j, q>>) /\ cur' = j /\ put' = (IF One(kind) THEN j ELSE put) /\ last' = "s" /\ UNCHANGED <<kind, items, file>>
\* bytes read one by one (or as small words) from an item on, then back to an item's start
DoRaw == \E i \in Pick(1..(N + 1)), n \in Pick(1..9), w \in Pick({"c", "s", "i", "le2", "le4", "le8"}), q \in Qf :
  N > 0 /\ i <= N /\ Out(<<"raw", i, w, n, q>>) /\ cur' = i /\ put' = (IF One(kind) THEN i ELSE put) /\ last' = "s" /\ UNCHANGED <<kind, items, file>>
DoClose == Out(<<"close">>) /\ kind' = "" /\ file' = (IF kind \in {"FW", "FRW"} THEN items ELSE file) /\ UNCHANGED <<items, cur, put, last>>
DoReopen == \E h \in Pick(0..0), q \in Qf : kind \in {"BR", "BW", "BRW"} /\ Out(<<"reopen", q>>) /\ items' = file /\ cur' = 1 /\ put' = 1 /\ last' = "s" /\ UNCHANGED <<kind, file>>
DoEof == IF kind \in {"BR", "BRW"} THEN Out(<<"eofclear">>) /\ cur' = 1 /\ put' = (IF One(kind) THEN 1 ELSE put) /\ last' = "s" /\ UNCHANGED <<kind, items, file>>
         ELSE Out(<<"eofclose">>) /\ kind' = "" /\ file' = (IF kind = "FRW" THEN items ELSE file) /\ UNCHANGED <<items, cur, put, last>>
Same == UNCHANGED <<kind, items, file, cur, put, last>>
Next == Len(hist) < Depth /\
  IF kind = "" THEN (\E k \in Pick(1..8) : IF k = 1 THEN (\E s \in Pick(1..99999) : Out(<<"bf", s>>)) /\ Same ELSE OpenIt)
  ELSE \E k \in Pick(1..24) :
    \/ k <= 7 /\ (IF CanW THEN DoWrite ELSE IF CanR THEN DoRead ELSE DoSeek)
    \/ k \in 8..15 /\ (IF CanR THEN DoRead ELSE IF CanW /\ N < 3 THEN DoWrite ELSE DoSeek)
    \/ k \in {16, 17} /\ DoSeek
    \/ k = 18 /\ (IF R(0) /\ N > 0 THEN (\E i \in Pick(1..N), n \in Pick(1..9), w \in Pick({"c", "s", "i", "le2", "le4", "le8"}), q \in Qf :
                     Out(<<"raw", i, w, n, q>>) /\ cur' = i /\ put' = (IF One(kind) THEN i ELSE put) /\ last' = "s" /\ UNCHANGED <<kind, items, file>>) ELSE DoSeek)
    \/ k = 19 /\ Out(<<"reset">>) /\ Same
    \/ k = 20 /\ Out(<<"query">>) /\ Same
    \/ k = 21 /\ Out(<<IF kind \in {"FW", "FR", "FRW"} THEN "flush" ELSE "str">>) /\ Same
    \/ k = 22 /\ DoClose
    \/ k = 23 /\ (IF kind \in {"BR", "BW", "BRW"} THEN DoReopen ELSE DoClose)
    \/ k = 24 /\ (IF R(0) /\ (kind = "FRW" => last # "w") THEN DoEof ELSE DoSeek)
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
