----------------------------- MODULE ArraysGen ------------------------------
(* random histories of array operations; the state of the model is carried along so that
   operations are applied where they are defined and values stay exactly representable *)
EXTENDS Arrays, TLC, Json, IOUtils, SequencesExt
CONSTANTS Depth, FSize, Flavor        \* element type: "int", "double", "real", "tr"
VARIABLES st, hist
R(S) == RandomElement(S)
U == {s \in 1..Slots : Used(st, s)}
F == (1..Slots) \ U
Pick(S) == IF S = {} THEN 0 ELSE R(S)
D1 == {s \in U : Multi(st, s) /\ Dims(st, s) = 1}
D2 == {s \in U : Multi(st, s) /\ Dims(st, s) > 1}
O1 == {s \in U : st.arr[s].k = "o" /\ Dims(st, s) = 1}
Val(q) == R(-9..9)
Size(d) == TLCEval(IF d = 1 THEN <<R(0..6)>> ELSE IF R(1..8) = 1 THEN [i \in 1..d |-> R(0..2)] ELSE IF d = 2 THEN [i \in 1..d |-> R(1..5)] ELSE [i \in 1..d |-> R(1..(IF d = 3 THEN 4 ELSE 3))])
Dim(q) == R(1..7)
DimOf(x) == CASE x \in {1, 2, 6} -> 1 [] x = 7 -> 2 [] OTHER -> x - (IF x > 2 THEN 0 ELSE 1)
Idx(n) == TLCEval([i \in 1..Len(n) |-> IF n[i] = 0 THEN 0 ELSE R(0..(n[i] - 1))])
Kind(q) == CASE R(1..10) \in 1..6 -> "m" [] R(1..2) = 1 -> "N" [] OTHER -> "o"
Op4(q) == R({"+", "-", "*", "/"})
\* a slot like q
Like(q) == IF q = 0 THEN 0 ELSE Pick({s \in U \ {q} : st.arr[s].k \in (IF Multi(st, q) THEN {"m", "v"} ELSE {st.arr[q].k}) /\ (st.arr[q].k = "N" \/ Dims(st, s) = Dims(st, q))})
SameSize(q) == IF q = 0 THEN 0 ELSE Pick({s \in D1 : st.arr[s].n = st.arr[q].n})
Names == <<"new", "new", "new", "new", "def", "del", "del", "copyc", "copyc", "asg", "asg", "asg", "asg", "scal", "set", "set", "set", "set", "set", "resize", "resize",
           "opa", "opa", "ops", "ops", "bin", "bins", "sbin", "cmp", "concat", "carr", "place", "row", "row", "row", "rowscal", "rowasg", "slice", "slice", "push", "ofm", "ofv",
           "neg", "smul", "divs", "norm2", "fun", "sizes", "foreign", "vres", "self", "prep", "rowasg", "rowscal", "sbin", "bins", "bin", "concat", "cmp", "cmp">>
Allowed(o) == CASE o \in {"cmp"} -> Flavor # "real" [] o = "norm2" -> Flavor \in {"int", "double"} [] o = "fun" -> Flavor = "real"
                [] o \in {"opa", "ops", "bin", "bins", "sbin", "smul", "divs", "neg"} -> TRUE [] OTHER -> TRUE
Seqn(m) == TLCEval([i \in 1..m |-> Val(0)])
FunVals(f) == TLCEval([i \in 1..R(0..4) |-> CASE f = "sqrt" -> R({0, 1, 4, 9, 16, 625, 250000}) [] f \in {"log", "acos"} -> 1 [] OTHER -> 0])
Rand(o) == LET f == Pick(F) u == Pick(U) d == Pick(D1) h == Pick(D2) IN
  CASE o = "new" -> <<o, f, Kind(0), Size(DimOf(Dim(0))), Val(0), R({-2, 1, 3, 7})>>
    [] o = "def" -> <<o, f, Kind(0), R(1..5)>>
    [] o = "del" -> <<o, u>>
    [] o = "copyc" -> <<o, f, u>>
    [] o = "asg" -> <<o, u, Like(u)>>
    [] o = "self" -> <<"asg", u, u>>
    [] o = "scal" -> <<o, u, Val(0)>>
    [] o = "set" -> IF u = 0 THEN <<"nop">> ELSE <<o, u, R({"call", "chain", "row", "elem", "packed"}), Idx(st.arr[u].n), Val(0)>>
    [] o = "resize" -> IF u = 0 THEN <<"nop">> ELSE <<o, u, IF st.arr[u].k = "N" THEN Size(DimOf(Dim(0))) ELSE Size(Dims(st, u)), Val(0), R({-1, 2, 5})>>
    [] o = "vres" -> <<o, Pick(O1), R(0..5)>>
    [] o = "opa" -> <<o, d, Op4(0), SameSize(d)>>
    [] o = "ops" -> <<o, d, Op4(0), R({-2, -1, 1, 2, 3, 7})>>
    [] o = "bin" -> <<o, f, Op4(0), d, SameSize(d)>>
    [] o = "bins" -> <<o, f, Op4(0), d, R({-2, -1, 1, 2, 5})>>
    [] o = "sbin" -> <<o, f, Op4(0), R({-3, 0, 2, 2520}), d>>
    [] o = "cmp" -> <<o, d, IF R(1..3) = 1 THEN Pick(D1) ELSE SameSize(d)>>
    [] o = "concat" -> <<o, f, d, Pick(D1)>>
    [] o = "carr" -> IF d = 0 THEN <<"nop">> ELSE <<o, d, Seqn(Count(st.arr[d].n) + R(0..2))>>
    [] o = "place" -> <<o, f, Size(DimOf(Dim(0))), Slots + R(1..Foreign), R(0..5)>>
    [] o = "row" -> <<o, f, h, R(0..4)>>
    [] o = "rowscal" -> <<o, h, R(0..4), Val(0)>>
    [] o = "rowasg" -> <<o, h, R(0..4), d>>
    [] o = "slice" -> LET w == IF h # 0 /\ R(1..3) > 1 THEN h ELSE u IN IF w = 0 THEN <<"nop">> ELSE <<o, w, LET x == Idx(st.arr[w].n) IN IF x = <<>> THEN x ELSE SubSeq(x, 1, Len(x) - 1)>>
    [] o = "push" -> <<o, Pick(O1), Val(0)>>
    [] o = "ofm" -> <<o, f, d>>
    [] o = "ofv" -> <<o, f, Seqn(R(0..4))>>
    [] o = "neg" -> <<o, f, Pick(O1)>>
    [] o = "smul" -> <<o, f, R({-2, 3}), Pick(O1)>>
    [] o = "divs" -> <<o, f, Pick(O1), R({-1, 1, 2})>>
    [] o = "norm2" -> <<o, d>>
    [] o = "fun" -> \* the value is drawn with the function
         LET g == R({"sqrt", "log", "sin", "cos", "tan", "asin", "acos", "atan"}) IN <<o, f, g, FunVals("none")>>
    [] o = "sizes" -> <<o, u>>
    [] o = "foreign" -> <<o, Slots + R(1..Foreign), R(0..(FSize - 1)), Val(0)>>
    [] o = "prep" -> IF d = 0 THEN <<"nop">> ELSE <<"carr", d, [i \in 1..Count(st.arr[d].n) |-> R({1, 2, 3, 4, 6, -5})]>>
SlotArgs(op) == CASE op[1] \in {"new", "def", "del", "scal", "set", "resize", "vres", "ops", "carr", "place", "rowscal", "slice", "push", "ofv", "norm2", "fun", "sizes"} -> {op[2]}
                  [] op[1] \in {"copyc", "asg", "cmp", "row", "ofm", "neg", "divs"} -> {op[2], op[3]}
                  [] op[1] \in {"opa", "bins", "smul"} -> {op[2], op[4]}
                  [] op[1] = "rowasg" -> {op[2], op[4]}
                  [] op[1] = "bin" -> {op[2], op[4], op[5]} [] op[1] = "sbin" -> {op[2], op[5]} [] op[1] = "concat" -> {op[2], op[3], op[4]}
                  [] OTHER -> {}
\* a function is asked for at points where its value is exact
FixFun(op) == IF op[1] # "fun" THEN op ELSE [op EXCEPT ![4] = FunVals(op[3])]
Good(op) == op[1] # "nop" /\ 0 \notin SlotArgs(op) /\ Pre(st, op)
Cands == [i \in 1..8 |-> FixFun(Rand(Names[R(1..Len(Names))]))]
Choose1(c) == LET g == SelectSeq(c, LAMBDA x : Allowed(x[1]) /\ Good(x)) IN IF g = <<>> THEN <<"foreign", Slots + 1, 0, 5>> ELSE g[1]
Init == st = Start(FSize) /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E c \in {TLCEval(Cands)} : \E op \in {TLCEval(Choose1(c))} :
             /\ st' = TLCEval(Do(st, op)) /\ hist' = Append(hist, op)
Spec == Init /\ [][Next]_<<st, hist>>
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
