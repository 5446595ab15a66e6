----------------------------- MODULE MapMemGen ------------------------------
(* random histories of map operations *)
EXTENDS MapMem, Json
CONSTANTS Depth, KT, VT
VARIABLES st, hist
R(S) == RandomElement(S)
Pick(S) == IF S = {} THEN 0 ELSE R(S)
Cod(q) == R({97, 98, 10, 32, 255, 1})
Small(q) == R({0, 1, 2, -1, 2147480000, -2147480000, 256, 16777216})
Strs == <<<<>>, <<97>>, <<97, 10>>, <<10>>, <<97, 97>>, <<98>>, <<255, 1>>>>
Key(q) == TLCEval(CASE KT = "int" -> <<R({0, 1, -1, 2, 3, 255, 256, 65536, -2147480000, 2147480000})>>
            [] KT = "rec" -> <<R({0, 1, 2}), R({0, 1, 256}), R({0, -1})>>
            [] KT = "arr" -> [i \in 1..R(0..3) |-> R({0, 1})]
            [] KT = "dbl" -> <<R({0, 128}), R({0, 0, 0, 248}), R({0, 0, 1}), 0, 0, 0, 0, R({0, 0, 7})>>     \* zeros of both signs, tiny and large numbers
            [] KT = "str" -> [i \in 1..R(0..2) |-> Cod(0)]
            [] OTHER -> <<Strs[R(1..7)], Strs[R(1..7)]>>)
V(q) == TLCEval(CASE VT = "int" -> <<Small(0)>> [] VT = "arr" -> [i \in 1..R(0..4) |-> R(-9..9)] [] OTHER -> [i \in 1..R(0..4) |-> R(1..255)])
U == {m \in 1..Maps : st[m].on}
F == (1..Maps) \ U
Known(m) == IF m = 0 \/ DOMAIN st[m].map = {} \/ R(1..4) = 1 THEN Key(0) ELSE st[m].map[R(DOMAIN st[m].map)][1]
Names == <<"new", "new", "del", "insert", "insert", "insert", "insert", "insert", "insertp", "range", "range2", "xml", "erase", "erase", "clear", "at", "setat", "copy", "assign", "ud", "getud",
           "get", "get", "get", "exist", "exist", "size", "keys", "kv", "iter", "iter2", "flush", "insert", "insert">>
Rand(o) == LET f == Pick(F) u == Pick(U) IN
  CASE o = "new" -> <<o, f>>
    [] o \in {"copy"} -> <<o, f, u>>
    [] o \in {"assign", "range2", "xml"} -> <<o, u, Pick(U)>>
    [] o \in {"insert", "insertp"} -> <<o, u, IF R(1..3) = 1 THEN Known(u) ELSE Key(0), V(0)>>
    [] o = "range" -> <<o, u, [i \in 1..R(0..4) |-> <<Key(0), V(0)>>]>>
    [] o \in {"erase", "exist", "at"} -> <<o, u, Known(u)>>
    [] o \in {"get", "setat"} -> <<o, u, Known(u), V(0)>>
    [] o = "ud" -> <<o, u, [i \in 1..R(0..3) |-> R(32..126)]>>
    [] OTHER -> <<o, u>>
Good(op) == op[2] # 0 /\ (op[1] \in {"copy", "assign", "range2", "xml"} => op[3] # 0) /\ (op[1] = "del" => R(1..3) = 1)
            /\ (op[1] = "xml" => KT = "int" /\ VT = "int") /\ Pre(st, KT, op)
Cands == [i \in 1..6 |-> Rand(Names[R(1..Len(Names))])]
Choose1(c) == LET g == SelectSeq(c, Good) IN IF g = <<>> THEN (IF F # {} THEN <<"new", Pick(F)>> ELSE <<"size", Pick(U)>>) ELSE g[1]
\* the last operation may look up a key that is not there, which ends the process
Final == LET u == Pick(U) k == Key(0) IN IF u = 0 \/ Has(st, KT, u, k) THEN <<>> ELSE <<R({"lost", "lostw"}), u, k>>
Init == st = Start /\ hist = <<<<"map", KT, VT>>>>
Next == /\ Len(hist) < Depth
        /\ IF Len(hist) = Depth - 1
           THEN \E f \in {TLCEval(Final)} : hist' = Append(hist, IF f = <<>> THEN <<"size", 0>> ELSE f) /\ st' = st
           ELSE \E c \in {TLCEval(Cands)} : \E op \in {TLCEval(Choose1(c))} : st' = TLCEval(Do(st, KT, op)) /\ hist' = Append(hist, op)
Spec == Init /\ [][Next]_<<st, hist>>
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
