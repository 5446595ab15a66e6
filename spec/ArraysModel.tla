---------------------------- MODULE ArraysModel -----------------------------
(* small model, explored exhaustively: any history over a few slots of small shapes keeps
   arrays independent, views inside their memory, and comparison a total order          *)
EXTENDS Arrays, TLC
CONSTANTS FSize, Steps, Wide
Shapes == IF Wide THEN {<<2>>, <<0>>, <<2, 2>>, <<1, 3>>, <<2, 1, 2>>} ELSE {<<2>>, <<0>>, <<2, 2>>}
VARIABLES st, last, prev, steps
vars == <<st, last, prev, steps>>
S == 1..Slots
Vals == {0, 1}
Ops ==
  {<<"new", s, k, n, f, 1>> : s \in S, k \in {"m", "N"}, n \in Shapes, f \in {0}} \cup
  {<<"new", s, "o", n, 0, 1>> : s \in S, n \in Shapes} \cup
  {<<"del", s>> : s \in S} \cup {<<"copyc", s, q>> : s \in S, q \in S} \cup {<<"asg", s, q>> : s \in S, q \in S} \cup
  {<<"scal", s, v>> : s \in S, v \in Vals} \cup
  {<<"resize", s, n, 0, 1>> : s \in S, n \in Shapes} \cup {<<"row", s, q, j>> : s \in S, q \in S, j \in 0..1} \cup
  {<<"place", s, n, b, o>> : s \in S, n \in Shapes, b \in (Slots + 1)..(Slots + Foreign), o \in 0..1} \cup
  {<<"rowscal", s, j, 7>> : s \in S, j \in 0..1} \cup {<<"rowasg", s, j, q>> : s \in S, q \in S, j \in 0..1} \cup
  {<<"opa", s, "+", q>> : s \in S, q \in S} \cup {<<"bin", s, "-", q, r>> : s \in S, q \in S, r \in S} \cup {<<"concat", s, q, r>> : s \in S, q \in S, r \in S} \cup
  {<<"set", s, "call", i, 9>> : s \in S, i \in {<<0>>, <<1>>, <<1, 0>>, <<0, 1>>}}
Ok(op) == Pre(st, op)
Init == st = Start(FSize) /\ last = <<"start">> /\ prev = Start(FSize) /\ steps = 0
Next == steps < Steps /\ \E op \in Ops : Ok(op) /\ st' = Do(st, op) /\ last' = op /\ prev' = st /\ steps' = steps + 1
Spec == Init /\ [][Next]_vars
\* an operation changes only the array it is applied to and those that share its memory
Target == IF Len(last) > 1 THEN last[2] ELSE 0
Independent == last[1] = "start" \/ \A q \in S : (q # Target /\ Used(prev, q)) =>
   \/ st.arr[q] = prev.arr[q] /\ Elems(st, q) = Elems(prev, q)
   \/ (Used(prev, Target) /\ prev.arr[Target].b = prev.arr[q].b)
\* reading never writes: operands keep their elements
InMemory == \A s \in S : Used(st, s) => st.arr[s].o + Count(st.arr[s].n) <= Len(st.heap[st.arr[s].b])
OwnMemory == \A s \in S : Owns(st, s) => st.arr[s].b = s /\ st.arr[s].o = 0 /\ Len(st.heap[s]) = Count(st.arr[s].n)
\* equal after copying, and the copy is another array
Copied == last[1] \in {"copyc", "asg"} => Elems(st, last[2]) = Elems(prev, last[3]) /\ st.arr[last[2]].n = prev.arr[last[3]].n
Order == \A s \in S, q \in S : (Used(st, s) /\ Used(st, q)) =>
   LET x == Elems(st, s) y == Elems(st, q) IN Cardinality({c \in 1..3 : CASE c = 1 -> x = y [] c = 2 -> Less(x, y) [] c = 3 -> Less(y, x)}) = 1
\* row-major order numbers the elements without gaps
ASSUME \A a \in 0..3, b \in 0..3, c \in 0..2 : LET n == <<a, b, c>> I == {<<i, j, k>> : i \in 0..(a - 1), j \in 0..(b - 1), k \in 0..(c - 1)} IN
         {At(n, i) : i \in I} = 0..(Prod(n) - 1) /\ Cardinality(I) = Prod(n)
=============================================================================
