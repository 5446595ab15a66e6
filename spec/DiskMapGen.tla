----------------------------- MODULE DiskMapGen -----------------------------
(* random histories of disk map operations by a sequence of processes.  "seg" ends a process
   without any clean-up; "arm" makes it die at its n-th write from there.              *)
EXTENDS DiskMap, Json
CONSTANTS Depth, KT, VT, Kill, Harm
VARIABLES st, hist, over, ops
R(S) == RandomElement(S)
Pick(S) == IF S = {} THEN 0 ELSE R(S)
Key(q) == TLCEval(CASE KT = "int" -> <<R(0..7)>> [] KT = "rec" -> <<R({0, 1}), R({0, 256}), R({0, -1})>>
            [] KT = "desc" -> [i \in 1..R(0..2) |-> R({97, 10, 255})] [] OTHER -> <<[i \in 1..R(0..1) |-> R({97, 10})], [i \in 1..R(0..1) |-> R({97, 10})]>>)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
\* the size of a value goes with its serialised key
Size(k) == CASE VT = "int" -> 1 [] VT = "ts" -> 16 [] VT = "arr" -> Sum(Ser(KT, k)) % 5 [] OTHER -> 1 + (Sum(Ser(KT, k)) % 5)
V(k) == TLCEval([i \in 1..Size(k) |-> IF VT = "str" THEN R(97..122) ELSE R(100000..900000)])
U == {o \in 1..Objs : st.obj[o].on}
OpenO == {o \in U : Open(st, o)}
W == {o \in OpenO : st.obj[o].w}
Closed0 == U \ OpenO
Known(o) == IF o = 0 \/ ~Open(st, o) \/ DOMAIN st.obj[o].map = {} \/ R(1..5) = 1 THEN Key(0) ELSE st.obj[o].map[R(DOMAIN st.obj[o].map)][1]
Names == <<"make", "make", "drop", "ud", "ud", "open", "open", "open", "open", "open", "close", "flush", "flush", "insert", "insert", "insert", "insert", "insert", "insert", "insert", "insert", "over", "over",
           "get", "get", "get", "get", "get", "get", "exist", "size", "keys", "getud", "meta", "exists", "any", "seg", "arm", "arm", "arm", "junk", "flip", "flip", "cut">>
SomeVal(f) == IF st.file[f].rec = <<>> THEN <<1>> ELSE st.file[f].rec[R(1..Len(st.file[f].rec))].val
Rand(n) == LET w == Pick(W) u == Pick(U) f == R(1..Files) g == Pick(OpenO) IN
  CASE n = "make" -> <<n, Pick((1..Objs) \ U)>>
    [] n \in {"drop", "close", "size", "keys", "getud"} -> <<n, u>>
    [] n = "flush" -> <<n, IF w # 0 THEN w ELSE u>>
    [] n = "ud" -> <<n, IF R(1..4) = 1 THEN u ELSE Pick(Closed0), [i \in 1..R(0..5) |-> R(0..255)]>>
    [] n = "open" -> <<n, IF R(1..9) = 1 THEN u ELSE Pick(Closed0), f, R({"new", "rw", "r", "rw", "r"})>>
    [] n = "insert" -> LET k == Key(0) IN <<n, w, k, V(k)>>
    [] n = "over" -> LET k == Known(w) IN <<"insert", w, k, V(k)>>
    [] n = "any" -> LET k == Key(0) IN <<"insert", u, k, V(k)>>
    [] n = "get" -> LET q == IF g # 0 /\ R(1..8) # 1 THEN g ELSE u k == Known(q) IN <<n, q, k, V(k)>>
    [] n = "exist" -> <<n, u, Known(u)>>
    [] n \in {"meta", "exists"} -> <<n, f>>
    [] n = "seg" -> <<n, 1>>
    [] n = "arm" -> <<n, R(0..5)>>
    [] n = "junk" -> <<n, f, R(0..4)>>
    [] n = "flip" -> <<n, f, SomeVal(f), R(0..63), R({1, 2, 128, 255, 32})>>
    [] n = "cut" -> <<n, f, R({1, 2, 4, 5, 20, 50, 100, 400, 10000})>>
Slot(op) == IF op[1] = "arm" THEN 1 ELSE op[2]
\* does the operation surely end the process, as far as the generator knows
Ends(op) == op[1] = "seg" \/ MayRefuse(st, KT, op)
Good(op) == /\ Slot(op) # 0 /\ (op[1] \in {"arm", "seg"} => Kill) /\ (op[1] \in {"junk", "flip", "cut"} => Harm /\ R(1..2) = 1) /\ (op[1] = "seg" => R(1..3) = 1)
            /\ (op[1] = "open" /\ op[4] = "new" => st.file[op[3]].ex = 0 \/ R(1..4) = 1)
            /\ (op[1] \in {"open", "meta"} /\ Ends(op) => R(1..6) = 1)
            /\ (~Kill => ~Ends(op))
            /\ (op[1] \in {"arm", "seg"} \/ Pre(st, KT, op))
Cands == [i \in 1..10 |-> Rand(Names[R(1..Len(Names))])]
\* once something may have ended the process, all that follows is for the next one
Choose1(c) == LET g == SelectSeq(c, Good) IN
  IF over THEN <<"seg", 1>> ELSE IF g = <<>> THEN (IF U = {} THEN <<"make", 1>> ELSE <<"keys", Pick(U)>>) ELSE g[1]
Some(S) == IF S = {} THEN Empty ELSE CHOOSE x \in S : TRUE
Step(op) == CASE op[1] = "seg" -> Left(st) [] op[1] = "arm" -> st
              [] Ends(op) -> st
              [] OTHER -> Do(st, KT, op, IF op[1] = "open" THEN Some(st.file[op[3]].opts) ELSE Empty, IF op[1] = "get" THEN (IF Open(st, op[2]) /\ Has(st, KT, op[2], op[3]) THEN Rec(st, KT, op[2], op[3]).val ELSE <<1>>) ELSE <<1>>)
Init == st = Start /\ hist = <<<<"map", KT, VT>>>> /\ over = FALSE /\ ops = 0
Next == /\ Len(hist) < Depth
        /\ \E c \in {TLCEval(Cands)} : \E op \in {TLCEval(Choose1(c))} :
             /\ st' = TLCEval(Step(op)) /\ hist' = Append(hist, op)
             \* an armed process is given a few more operations
             /\ ops' = (IF op[1] = "arm" THEN R(1..5) ELSE IF ops > 0 THEN ops - 1 ELSE 0)
             /\ over' = (op[1] # "seg" /\ (over \/ Ends(op) \/ (ops = 1 /\ op[1] # "arm")))
Spec == Init /\ [][Next]_<<st, hist, over, ops>>
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
