------------------------------- MODULE CommGen -------------------------------
(* random sequences of collective operations <<name, kind of field, argument, argument>> *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES hist
R(S, q) == IF Len(q) < 0 THEN 0 ELSE RandomElement(S)
Names == <<"shift", "shift", "shift", "shiftsub", "nest", "map", "map", "peek", "peek", "poke", "norm", "file", "file", "site", "time", "buf", "sum", "multi", "inner", "max", "rnd", "word", "bcast", "text", "scalars", "route", "route">>
Op(q) == <<Names[R(1..Len(Names), q)], R(0..4, q), R(0..4095, q), R(0..4095, q)>>
Small(o) == IF o[1] \in {"word", "text", "bcast", "scalars", "route"} THEN <<o[1], o[2], o[3] % 20, o[4] % 20>> ELSE o
Init == hist = <<>>
Next == Len(hist) < Depth /\ \E o \in {TLCEval(Op(hist))} : hist' = Append(hist, Small(o))
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
