------------------------------ MODULE AllocGen ------------------------------
(* random histories of creating, copying, assigning and destroying fields *)
EXTENDS Alloc, Json
CONSTANTS Depth
VARIABLES st, hist
R(S) == RandomElement(S)
Pick(S) == IF S = {} THEN 0 ELSE R(S)
Val(q) == R(1..1000)
Bytes(q) == R({0, 1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 100, 1000, 4095, 4096, 32767, 32768, 32769, 65536, 98304})
Live == {s \in 1..Slots : st[s] # Nil}
Off == (1..Slots) \ Live
K(k) == {s \in 1..Slots : st[s].k = k}
Like(s) == IF s = 0 THEN {} ELSE {q \in 1..Slots : st[q].k = st[s].k /\ st[q].t = st[s].t}
Names == <<"new", "new", "new", "raw", "raw", "raw", "arr", "vec", "mat", "copy", "copy", "copy", "ret", "assign", "assign", "assign", "byval", "conv", "swap", "expr", "add", "add", "set", "set",
           "resize", "resize", "push", "push", "push", "pop", "erase", "sub", "sub", "subset", "free", "free", "del", "del", "clear", "lattice">>
Rand(o) == LET f == Pick(Off) u == Pick(Live) IN
  CASE o = "new" -> <<o, f, R({"R", "R", "C", "M", "D"}), Val(0)>>
    [] o = "raw" -> <<o, f, Bytes(0), R(1..200)>>
    [] o \in {"arr", "vec"} -> <<o, f, R(0..3)>>
    [] o = "mat" -> <<o, f, R(0..2), R(0..2)>>
    [] o \in {"copy", "ret"} -> <<o, f, u>>
    [] o \in {"assign", "swap", "byval"} -> <<o, u, Pick(Like(u))>>
    [] o = "conv" -> <<o, f, Pick(K("fld"))>>
    [] o = "expr" -> LET q == Pick(K("fld")) IN <<o, f, q, Pick(Like(q))>>
    [] o = "add" -> LET q == Pick(K("fld")) IN <<o, q, Pick(Like(q)), Pick(Like(q))>>
    [] o = "set" -> <<o, u, IF u = 0 \/ st[u].v = <<>> THEN 0 ELSE R(1..Len(st[u].v)), R(1..200)>>
    [] o = "resize" -> <<o, Pick(K("arr") \cup K("vec")), R(0..4)>>
    [] o = "push" -> <<o, Pick(K("vec")), Val(0)>>
    [] o = "pop" -> <<o, Pick(K("vec"))>>
    [] o = "erase" -> LET q == Pick(K("vec")) IN <<o, q, IF q = 0 \/ st[q].v = <<>> THEN 0 ELSE R(1..Len(st[q].v))>>
    [] o = "sub" -> <<o, f, Pick(K("fld")), R(0..3)>>
    [] o = "subset" -> <<o, Pick(K("sub")), R(0..3), Val(0)>>
    [] o = "free" -> <<o, Pick(K("raw"))>>
    [] o = "del" -> <<o, u>>
    [] o = "lattice" -> <<o, R(0..2)>>
    [] OTHER -> <<o>>
Small == \A s \in 1..Slots : \A i \in 1..Len(st[s].v) : st[s].v[i] < 100000000
Good(op) == (op[1] \in {"clear", "lattice"} => R(1..3) = 1) /\ (op[1] \in {"expr", "add"} => Small) /\ Pre(st, op)
Cands == [i \in 1..6 |-> Rand(Names[R(1..Len(Names))])]
Choose1(c) == LET g == SelectSeq(c, Good) IN IF g = <<>> THEN (IF Off # {} THEN <<"new", Pick(Off), "R", 7>> ELSE <<"del", CHOOSE s \in Live \cup {0} : s = 0 \/ st[s].k # "raw">>) ELSE g[1]
Final == R({<<"clear">>, <<"clear">>, <<"bad", "twice">>, <<"bad", "inside">>, <<"bad", "stack">>})
Init == st = Start /\ hist = <<>>
Step(op) == IF Pre(st, op) THEN st' = TLCEval(Do(st, op)) /\ hist' = Append(hist, op) ELSE st' = Start /\ hist' = Append(hist, <<"clear">>)
Next == /\ Len(hist) < Depth
        /\ IF Len(hist) = Depth - 1 THEN \E f \in {TLCEval(Final)} : Step(f)
           ELSE \E c \in {TLCEval(Cands)} : \E op \in {TLCEval(Choose1(c))} : Step(op)
Spec == Init /\ [][Next]_<<st, hist>>
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
