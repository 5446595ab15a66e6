------------------------------- MODULE Arrays -------------------------------
(* Multi-dimensional arrays as independent value arrays.
   A state is [arr, heap]: arr gives per slot a record
       k  kind: "m" multi1d..multi5d, "v" a view (array on memory it does not own),
          "N" multiNd, "o" 1-based Array1dO..Array5dO, "-" unused
       n  the sizes, slowest index first
       b, o  block and offset of its elements
       z  it has never been given memory
   and heap gives per block the elements.  Slot s owns block s; blocks above Slots are
   foreign memory.  Operations are sequences <<name, argument...>>.                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Slots, Foreign          \* slots 1..Slots, blocks Slots+1..Slots+Foreign are foreign memory
None == [k |-> "-", n |-> <<>>, b |-> 0, o |-> 0, z |-> TRUE]
RECURSIVE Prod(_)
Prod(n) == IF n = <<>> THEN 1 ELSE n[1] * Prod(Tail(n))
Count(n) == IF n = <<>> THEN 0 ELSE Prod(n)
Elems(st, s) == SubSeq(st.heap[st.arr[s].b], st.arr[s].o + 1, st.arr[s].o + Count(st.arr[s].n))
\* row-major: the last index runs fastest; indices from 0
RECURSIVE Off(_, _, _)
Off(n, i, acc) == IF n = <<>> THEN acc ELSE Off(Tail(n), Tail(i), acc * n[1] + i[1])
At(n, i) == Off(n, i, 0)
InRange(n, i) == Len(i) = Len(n) /\ \A d \in 1..Len(n) : 0 <= i[d] /\ i[d] < n[d]
Dims(st, s) == Len(st.arr[s].n)
Used(st, s) == st.arr[s].k # "-"
Multi(st, s) == st.arr[s].k \in {"m", "v"}
Owns(st, s) == st.arr[s].k \in {"m", "N", "o"}
\* slot s becomes an array of its own with the given elements
Own(st, s, k, n, vals, z) == [arr |-> [st.arr EXCEPT ![s] = [k |-> k, n |-> n, b |-> s, o |-> 0, z |-> z]],
                              heap |-> [st.heap EXCEPT ![s] = vals]]
View(st, s, n, b, o) == [st EXCEPT !.arr[s] = [k |-> "v", n |-> n, b |-> b, o |-> o, z |-> FALSE]]
Write(st, s, vals) == LET a == st.arr[s] IN
  [st EXCEPT !.heap[a.b] = [i \in 1..Len(@) |-> IF i > a.o /\ i <= a.o + Len(vals) THEN vals[i - a.o] ELSE @[i]]]
Zeros(m) == [i \in 1..m |-> 0]
Fill(n, f, g) == [i \in 1..Count(n) |-> f + g * (i - 1)]
Same(n, v) == [i \in 1..Count(n) |-> v]
Quot(a, b) == IF (a < 0) = (b < 0) THEN (IF a < 0 THEN (-a) \div (-b) ELSE a \div b) ELSE -((IF a < 0 THEN -a ELSE a) \div (IF b < 0 THEN -b ELSE b))
Exact(a, b) == b # 0 /\ Quot(a, b) * b = a
Ap(o, x, y) == CASE o = "+" -> x + y [] o = "-" -> x - y [] o = "*" -> x * y [] o = "/" -> Quot(x, y)
ZipA(o, x, y) == [i \in 1..Len(x) |-> Ap(o, x[i], y[i])]
ZipS(o, x, v) == [i \in 1..Len(x) |-> Ap(o, x[i], v)]
SZip(o, v, x) == [i \in 1..Len(x) |-> Ap(o, v, x[i])]
Abs(x) == IF x < 0 THEN -x ELSE x
Big == 1000000
Lim == Big
Fits(x) == Abs(x) <= Lim
\* may the operation be applied to x and y: exact quotients, values that every element type holds
OpOk(o, x, y) == CASE o = "/" -> Exact(x, y) [] o = "*" -> Abs(x) <= 30000 /\ Abs(y) <= 30000 /\ Fits(x * y) [] OTHER -> Fits(Ap(o, x, y))
ZipOk(o, x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : OpOk(o, x[i], y[i])
\* lexicographic comparison of sequences, a proper prefix being smaller
Less(x, y) == \/ \E i \in 1..Len(x) : i <= Len(y) /\ x[i] < y[i] /\ \A j \in 1..(i - 1) : x[j] = y[j]
              \/ Len(x) < Len(y) /\ \A j \in 1..Len(x) : x[j] = y[j]
RECURSIVE Sq(_)
Sq(x) == IF x = <<>> THEN 0 ELSE x[1] * x[1] + Sq(Tail(x))
SqOk(x) == Len(x) > 0 /\ \A i \in 1..Len(x) : Abs(x[i]) <= 3000
\* functions at points where the value is exact
FunOk(f, x) == CASE f = "sqrt" -> \E r \in 0..1000 : r * r = x [] f \in {"log", "acos"} -> x = 1 [] OTHER -> x = 0
FunAt(f, x) == CASE f = "sqrt" -> CHOOSE r \in 0..1000 : r * r = x [] f = "cos" -> 1 [] OTHER -> 0
\* nobody else looks at the block slot s owns
Unviewed(st, s) == \A q \in 1..Slots : q # s /\ Used(st, q) => st.arr[q].b # s
Apart(a, b) == a.b # b.b \/ a.o = b.o \/ a.o + Count(a.n) <= b.o \/ b.o + Count(b.n) <= a.o
SizesOk(k, n) == IF k = "N" THEN Len(n) \in 1..5 ELSE Len(n) \in 1..5
RowN(st, s) == Tail(st.arr[s].n)
RowOff(st, s, j) == st.arr[s].o + j * Count(RowN(st, s))
\* what each operation needs
Pre(st, op) == LET o == op[1] IN
  CASE o = "new" -> ~Used(st, op[2]) /\ SizesOk(op[3], op[4])
    [] o = "def" -> ~Used(st, op[2])
    [] o = "del" -> Used(st, op[2]) /\ Unviewed(st, op[2])
    [] o = "copyc" -> ~Used(st, op[2]) /\ Used(st, op[3])
    [] o = "asg" -> LET a == st.arr[op[2]] b == st.arr[op[3]] IN
         /\ a.k # "-" /\ b.k # "-"
         /\ (CASE a.k = "m" -> b.k \in {"m", "v"} /\ Len(a.n) = Len(b.n) /\ (op[2] = op[3] \/ Unviewed(st, op[2]) \/ (Len(a.n) = 1 /\ a.n = b.n))
              [] a.k = "v" -> b.k \in {"m", "v"} /\ Len(a.n) = 1 /\ a.n = b.n
              [] a.k = "N" -> b.k = "N"
              [] a.k = "o" -> b.k = "o" /\ Len(a.n) = Len(b.n))
         /\ Apart(a, b)
    [] o = "scal" -> Used(st, op[2]) /\ ~st.arr[op[2]].z /\ ~(st.arr[op[2]].k = "o" /\ Dims(st, op[2]) = 1)
    [] o = "set" -> Used(st, op[2]) /\ InRange(st.arr[op[2]].n, op[4]) /\ Len(op[4]) > 0
         /\ (CASE op[3] = "chain" -> Multi(st, op[2]) [] op[3] = "row" -> Multi(st, op[2]) /\ Dims(st, op[2]) > 1
              [] op[3] \in {"elem", "packed"} -> st.arr[op[2]].k = "N" [] op[3] = "call" -> ~(st.arr[op[2]].k = "N" /\ Dims(st, op[2]) > 4))
    [] o = "resize" -> Owns(st, op[2]) /\ Unviewed(st, op[2]) /\ (IF st.arr[op[2]].k = "N" THEN SizesOk("N", op[3]) ELSE Len(op[3]) = Dims(st, op[2]))
    [] o = "vres" -> st.arr[op[2]].k = "o" /\ Dims(st, op[2]) = 1
    [] o = "opa" -> Multi(st, op[2]) /\ Multi(st, op[4]) /\ Dims(st, op[2]) = 1 /\ Dims(st, op[4]) = 1 /\ Apart(st.arr[op[2]], st.arr[op[4]])
         /\ ZipOk(op[3], Elems(st, op[2]), Elems(st, op[4]))
    [] o = "ops" -> Multi(st, op[2]) /\ Dims(st, op[2]) = 1 /\ ~st.arr[op[2]].z /\ LET x == Elems(st, op[2]) IN \A i \in 1..Len(x) : OpOk(op[3], x[i], op[4])
    [] o = "bin" -> ~Used(st, op[2]) /\ Multi(st, op[4]) /\ Multi(st, op[5]) /\ Dims(st, op[4]) = 1 /\ Dims(st, op[5]) = 1 /\ ZipOk(op[3], Elems(st, op[4]), Elems(st, op[5]))
    [] o = "bins" -> ~Used(st, op[2]) /\ Multi(st, op[4]) /\ Dims(st, op[4]) = 1 /\ LET x == Elems(st, op[4]) IN \A i \in 1..Len(x) : OpOk(op[3], x[i], op[5])
    [] o = "sbin" -> ~Used(st, op[2]) /\ Multi(st, op[5]) /\ Dims(st, op[5]) = 1 /\ LET x == Elems(st, op[5]) IN \A i \in 1..Len(x) : OpOk(op[3], op[4], x[i])
    [] o = "cmp" -> Multi(st, op[2]) /\ Multi(st, op[3]) /\ Dims(st, op[2]) = 1 /\ Dims(st, op[3]) = 1
    [] o = "concat" -> ~Used(st, op[2]) /\ Multi(st, op[3]) /\ Multi(st, op[4]) /\ Dims(st, op[3]) = 1 /\ Dims(st, op[4]) = 1
    [] o = "carr" -> Multi(st, op[2]) /\ Dims(st, op[2]) = 1 /\ ~st.arr[op[2]].z /\ Len(op[3]) >= Count(st.arr[op[2]].n)
    [] o = "place" -> ~Used(st, op[2]) /\ op[4] > Slots /\ op[5] + Count(op[3]) <= Len(st.heap[op[4]]) /\ Len(op[3]) \in 1..5
    [] o = "row" -> ~Used(st, op[2]) /\ Multi(st, op[3]) /\ Dims(st, op[3]) > 1 /\ op[4] \in 0..(st.arr[op[3]].n[1] - 1)
    [] o = "rowscal" -> Multi(st, op[2]) /\ Dims(st, op[2]) > 1 /\ op[3] \in 0..(st.arr[op[2]].n[1] - 1)
    [] o = "rowasg" -> /\ Multi(st, op[2]) /\ Dims(st, op[2]) = 2 /\ op[3] \in 0..(st.arr[op[2]].n[1] - 1)
                       /\ Multi(st, op[4]) /\ st.arr[op[4]].n = RowN(st, op[2])
                       /\ Apart([n |-> RowN(st, op[2]), b |-> st.arr[op[2]].b, o |-> RowOff(st, op[2], op[3])], st.arr[op[4]])
    [] o = "slice" -> Multi(st, op[2]) /\ Len(op[3]) = Dims(st, op[2]) - 1 /\ InRange(SubSeq(st.arr[op[2]].n, 1, Len(op[3])), op[3])
    [] o = "push" -> st.arr[op[2]].k = "o" /\ Dims(st, op[2]) = 1
    [] o = "ofm" -> ~Used(st, op[2]) /\ Multi(st, op[3]) /\ Dims(st, op[3]) = 1
    [] o = "ofv" -> ~Used(st, op[2])
    [] o = "neg" -> ~Used(st, op[2]) /\ st.arr[op[3]].k = "o" /\ Dims(st, op[3]) = 1
    [] o = "smul" -> ~Used(st, op[2]) /\ st.arr[op[4]].k = "o" /\ Dims(st, op[4]) = 1 /\ LET x == Elems(st, op[4]) IN \A i \in 1..Len(x) : OpOk("*", op[3], x[i])
    [] o = "divs" -> ~Used(st, op[2]) /\ st.arr[op[3]].k = "o" /\ Dims(st, op[3]) = 1 /\ LET x == Elems(st, op[3]) IN \A i \in 1..Len(x) : OpOk("/", x[i], op[4])
    [] o = "norm2" -> Multi(st, op[2]) /\ Dims(st, op[2]) = 1 /\ SqOk(Elems(st, op[2]))
    [] o = "fun" -> ~Used(st, op[2]) /\ \A i \in 1..Len(op[4]) : FunOk(op[3], op[4][i])
    [] o = "sizes" -> Used(st, op[2])
    [] o = "foreign" -> op[2] > Slots /\ op[3] \in 0..(Len(st.heap[op[2]]) - 1)
    [] OTHER -> FALSE
\* the state afterwards
Do(st, op) == LET o == op[1] s == op[2] IN
  CASE o = "new" -> Own(st, s, op[3], op[4], Fill(op[4], op[5], op[6]), FALSE)
    [] o = "def" -> IF op[3] = "N" THEN Own(st, s, "N", <<>>, <<>>, TRUE) ELSE Own(st, s, op[3], [i \in 1..op[4] |-> 0], <<>>, TRUE)
    [] o = "del" -> [st EXCEPT !.arr[s] = None, !.heap = IF Owns(st, s) THEN [@ EXCEPT ![s] = <<>>] ELSE @]
    [] o = "copyc" -> LET q == st.arr[op[3]] IN Own(st, s, IF q.k = "v" THEN "m" ELSE q.k, q.n, Elems(st, op[3]), q.k = "o" /\ Len(q.n) = 1 /\ q.z)
    [] o = "asg" -> LET a == st.arr[s] q == st.arr[op[3]] IN
         IF s = op[3] THEN st
         ELSE IF a.k = "v" \/ (a.k = "m" /\ Len(a.n) = 1 /\ a.n = q.n) THEN Write(st, s, Elems(st, op[3]))
         ELSE Own(st, s, a.k, q.n, Elems(st, op[3]), FALSE)
    [] o = "scal" -> Write(st, s, Same(st.arr[s].n, op[3]))
    [] o = "set" -> LET a == st.arr[s] IN [st EXCEPT !.heap[a.b][a.o + At(a.n, op[4]) + 1] = op[5]]
    [] o = "resize" -> Own(st, s, st.arr[s].k, op[3], Fill(op[3], op[4], op[5]), FALSE)
    [] o = "vres" -> Own(st, s, "o", <<op[3]>>, LET x == Elems(st, s) IN [i \in 1..op[3] |-> IF i <= Len(x) THEN x[i] ELSE 0], FALSE)
    [] o = "opa" -> Write(st, s, ZipA(op[3], Elems(st, s), Elems(st, op[4])))
    [] o = "ops" -> Write(st, s, ZipS(op[3], Elems(st, s), op[4]))
    [] o = "bin" -> Own(st, s, "m", st.arr[op[4]].n, ZipA(op[3], Elems(st, op[4]), Elems(st, op[5])), FALSE)
    [] o = "bins" -> Own(st, s, "m", st.arr[op[4]].n, ZipS(op[3], Elems(st, op[4]), op[5]), FALSE)
    [] o = "sbin" -> Own(st, s, "m", st.arr[op[5]].n, SZip(op[3], op[4], Elems(st, op[5])), FALSE)
    [] o = "concat" -> LET v == Elems(st, op[3]) \o Elems(st, op[4]) IN Own(st, s, "m", <<Len(v)>>, v, FALSE)
    [] o = "carr" -> Write(st, s, SubSeq(op[3], 1, Count(st.arr[s].n)))
    [] o = "place" -> View(st, s, op[3], op[4], op[5])
    [] o = "row" -> View(st, s, RowN(st, op[3]), st.arr[op[3]].b, RowOff(st, op[3], op[4]))
    [] o = "rowscal" -> LET a == st.arr[s] f == RowOff(st, s, op[3]) m == Count(RowN(st, s)) IN
          [st EXCEPT !.heap[a.b] = [i \in 1..Len(@) |-> IF i > f /\ i <= f + m THEN op[4] ELSE @[i]]]
    [] o = "rowasg" -> LET a == st.arr[s] f == RowOff(st, s, op[3]) v == Elems(st, op[4]) IN
          [st EXCEPT !.heap[a.b] = [i \in 1..Len(@) |-> IF i > f /\ i <= f + Len(v) THEN v[i - f] ELSE @[i]]]
    [] o = "push" -> LET v == Append(Elems(st, s), op[3]) IN Own(st, s, "o", <<Len(v)>>, v, FALSE)
    [] o = "ofm" -> Own(st, s, "o", st.arr[op[3]].n, Elems(st, op[3]), FALSE)
    [] o = "ofv" -> Own(st, s, "o", <<Len(op[3])>>, op[3], FALSE)
    [] o = "neg" -> Own(st, s, "o", st.arr[op[3]].n, SZip("-", 0, Elems(st, op[3])), FALSE)
    [] o = "smul" -> Own(st, s, "o", st.arr[op[4]].n, SZip("*", op[3], Elems(st, op[4])), FALSE)
    [] o = "divs" -> Own(st, s, "o", st.arr[op[3]].n, ZipS("/", Elems(st, op[3]), op[4]), FALSE)
    [] o = "fun" -> Own(st, s, "m", <<Len(op[4])>>, [i \in 1..Len(op[4]) |-> FunAt(op[3], op[4][i])], FALSE)
    [] o = "foreign" -> [st EXCEPT !.heap[s][op[3] + 1] = op[4]]
    [] OTHER -> st
\* what the operation returns
Bit(b) == IF b THEN 1 ELSE 0
Rev(n) == [i \in 1..Len(n) |-> n[Len(n) + 1 - i]]
Ret(st, op) == LET o == op[1] IN
  CASE o = "cmp" -> LET x == Elems(st, op[2]) y == Elems(st, op[3]) IN
         <<Bit(x = y), Bit(x # y), Bit(Less(x, y)), Bit(Less(y, x)), Bit(~Less(y, x)), Bit(~Less(x, y))>>
    [] o = "slice" -> LET a == st.arr[op[2]] m == a.n[Len(a.n)] x == Elems(st, op[2])
                          f == At(SubSeq(a.n, 1, Len(op[3])), op[3]) * m IN SubSeq(x, f + 1, f + m)
    [] o = "norm2" -> <<Sq(Elems(st, op[2]))>>
    \* every accessor of a size, the fastest index first
    [] o = "sizes" -> LET a == st.arr[op[2]] n == a.n r == Rev(n) IN
         CASE a.k \in {"m", "v"} -> (CASE Len(n) = 1 -> <<n[1], n[1]>> [] Len(n) = 2 -> r \o <<n[1], n[2]>> [] Len(n) = 3 -> r \o n [] OTHER -> r)
           [] a.k = "o" -> (CASE Len(n) = 1 -> n [] Len(n) = 2 -> <<n[2]>> \o r \o <<n[1], n[2]>> [] Len(n) = 3 -> <<n[3]>> \o r \o n [] OTHER -> <<n[Len(n)]>> \o r)
           [] OTHER -> n \o <<Len(n), Count(n)>>
    [] OTHER -> <<>>
\* what can be seen of the whole: all arrays, foreign memory, and how many elements are held
RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOf(f, S \ {x})
Held(st) == SumOf([s \in 1..Slots |-> IF Owns(st, s) THEN Count(st.arr[s].n) ELSE 0], 1..Slots)
Snap(st) == LET live == SelectSeq([i \in 1..Slots |-> i], LAMBDA s : Used(st, s)) IN
            [i \in 1..Len(live) |-> <<live[i], st.arr[live[i]].k, st.arr[live[i]].n, Elems(st, live[i])>>]
Mem(st) == [i \in 1..Foreign |-> st.heap[Slots + i]]
Start(fsize) == [arr |-> [s \in 1..Slots |-> None],
                 heap |-> [b \in 1..(Slots + Foreign) |-> IF b <= Slots THEN <<>> ELSE [i \in 1..fsize |-> 100 * (b - Slots) + i]]]
=============================================================================
