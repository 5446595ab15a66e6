----------------------------- MODULE TextModel -----------------------------
(* Design check of the text conventions: values written with a separator after each come back in
   order, and printing, reading and printing again changes nothing (for every small value).    *)
EXTENDS TextFmt, FiniteSets, TLC
CONSTANTS MaxItems, Top, Precs
VARIABLES content, queue, p
vars == <<content, queue, p>>
Words == {<<97>>, <<98, 45>>}
Dig(n) == LET c == Nat2Text(n, 0) IN [i \in 1..Len(c) |-> c[i] - Zero]
FVals == {[neg |-> s, d |-> IF n = 0 THEN <<0>> ELSE Strip(Dig(n)), x |-> IF n = 0 THEN 0 ELSE x] : s \in {TRUE, FALSE}, n \in {0, 1, 5, 15, 95, 99, 125, 995, 1005, 9995}, x \in {-5, -1, 0, 2, 6}}
Vals == {[t |-> "int", v |-> IF s THEN <<Minus>> \o Nat2Text(n, 0) ELSE Nat2Text(n, 0)] : s \in {TRUE, FALSE}, n \in 1..Top} \cup {[t |-> "string", v |-> w] : w \in Words} \cup {[t |-> "bool", v |-> <<b>>] : b \in {0, 1}}
Init == content = <<>> /\ queue = <<>> /\ p = 1
Write == Len(queue) < MaxItems /\ p = 1 /\ \E v \in Vals : content' = content \o Show(v, Default) \o <<32>> /\ queue' = Append(queue, v) /\ UNCHANGED p
Read == queue # <<>> /\ LET v == Head(queue) r == Take(content, p, v.t) IN r.ok /\ p' = r.p /\ queue' = Tail(queue) /\ UNCHANGED content
Next == Write \/ Read
Spec == Init /\ [][Next]_vars
\* the next word is the oldest value not yet read
Order == queue # <<>> => LET v == Head(queue) r == Take(content, p, v.t) IN r.ok /\ r.v = Show(v, Default)
Drained == queue = <<>> => Skip(content, p) > Len(content)
\* printing, reading back and printing again is stable, and loses nothing that fits in the digits
Stable == content = <<>> => \A v \in FVals, q \in Precs : LET f == [Default EXCEPT !.prec = q] a == ShowFloat(v, f) r == Take(a, 1, "double") IN
   r.ok /\ r.p = Len(a) + 1 /\ ShowFloat(r.v, f) = a /\ (Len(v.d) <= q => r.v = v)
Formats == content = <<>> => \A v \in FVals, q \in Precs \cup {0}, ff \in {"e", "f"} : LET a == ShowFloat(v, [Default EXCEPT !.prec = q, !.ff = ff]) r == Take(a, 1, "double") IN
   r.ok /\ r.p = Len(a) + 1 /\ (ff = "e" /\ Len(v.d) <= q + 1 => r.v = v)
=============================================================================
