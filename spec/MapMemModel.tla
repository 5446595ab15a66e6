---------------------------- MODULE MapMemModel -----------------------------
(* all short histories: the map reflects the last value inserted for each key and not erased,
   maps are independent of each other.  The history of each map is kept as a log.   *)
EXTENDS MapMem
CONSTANTS Steps
VARIABLES st, log, n
Keys == {<<<<1>>, <<>>>>, <<<<1>>, <<10>>>>, <<<<1, 10>>, <<>>>>, <<<<>>, <<1>>>>}
Vals == {1, 2}
KT == "pair"
Ops == {<<"new", m>> : m \in 1..Maps} \cup {<<"insert", m, k, v>> : m \in 1..Maps, k \in Keys, v \in Vals}
       \cup {<<"erase", m, k>> : m \in 1..Maps, k \in Keys} \cup {<<"clear", m>> : m \in 1..Maps}
       \cup {<<o, m, q>> : o \in {"copy", "assign", "range2"}, m, q \in 1..Maps} \cup {<<"setat", m, k, v>> : m \in 1..Maps, k \in Keys, v \in Vals}
Log(op) == LET m == op[2] IN
  CASE op[1] = "new" -> [log EXCEPT ![m] = <<>>] [] op[1] \in {"copy", "assign"} -> [log EXCEPT ![m] = log[op[3]]]
    [] op[1] = "range2" -> [log EXCEPT ![m] = @ \o <<<<"all", st[op[3]].map>>>>]
    [] OTHER -> [log EXCEPT ![m] = Append(@, op)]
Init == st = Start /\ log = [m \in 1..Maps |-> <<>>] /\ n = 0
Next == n < Steps /\ n' = n + 1 /\ \E op \in Ops : Pre(st, KT, op) /\ st' = Do(st, KT, op) /\ log' = Log(op)
Spec == Init /\ [][Next]_<<st, log, n>>
\* the last entry of the log that concerns a key decides
Touches(e, s) == CASE e[1] = "clear" -> TRUE [] e[1] = "all" -> s \in DOMAIN e[2] [] OTHER -> Ser(KT, e[3]) = s
Last(m, s) == {i \in 1..Len(log[m]) : Touches(log[m][i], s) /\ \A j \in (i + 1)..Len(log[m]) : ~Touches(log[m][j], s)}
Reflects == \A m \in 1..Maps : st[m].on => \A k \in Keys : LET s == Ser(KT, k) L == Last(m, s) IN
  IF L = {} THEN ~Has(st, KT, m, k)
  ELSE LET e == log[m][CHOOSE i \in L : TRUE] IN
    CASE e[1] \in {"erase", "clear"} -> ~Has(st, KT, m, k)
      [] e[1] = "all" -> Has(st, KT, m, k) /\ Val(st, KT, m, k) = e[2][s][2]
      [] OTHER -> Has(st, KT, m, k) /\ Val(st, KT, m, k) = e[4]
\* keys are the same key iff their serialised forms are equal
SameKey == \A m \in 1..Maps : \A a, b \in Keys : Ser(KT, a) = Ser(KT, b) /\ st[m].on => (Has(st, KT, m, a) <=> Has(st, KT, m, b))
=============================================================================
