---------------------------- MODULE LifecycleGen ----------------------------
(* random lives: calls in any order; the history ends with the first call that must end the
   process, or when it is long enough                                                       *)
EXTENDS Lifecycle, Json
CONSTANTS Depth, Long
VARIABLES st, hist, dead
R(S) == RandomElement(S)
Good(q) == R({<<2, 2, 2, 2>>, <<4, 2, 2, 2>>, <<4, 4, 2, 2>>, <<8, 2, 2, 2>>, <<4, 2, 6, 2>>, <<4, 4, 4, 4>>, <<8, 4, 2, 6>>, <<2, 2, 2, 8>>})
Odd(q) == R({<<3, 2, 2, 2>>, <<2, 3, 3, 3>>, <<1, 1, 1, 1>>, <<5, 1, 1, 1>>, <<4, 3, 2, 2>>, <<6, 6, 2, 2>>, <<2, 2, 2, 3>>, <<12, 1, 1, 2>>, <<4, 1, 1, 1>>})
Bad(q) == R({<<0, 2, 2, 2>>, <<2, 2, 2, 0>>, <<0, 0, 0, 0>>, <<-2, 2, 2, 2>>, <<-2, -2, 2, 2>>, <<2, 2, -2, -2>>, <<-4, -4, -2, -2>>, <<4, 0, 2, 2>>, <<2, -1, 2, 2>>, <<>>, <<4>>, <<4, 2, 2>>, <<2, 2, 2, 2, 2>>, <<4, 4, 2, 2, 1>>})
Args1(q) == LET k == R(1..9) IN
  CASE k = 1 -> <<"-poolsize", R({1, 2})>>
    [] k = 2 -> <<"-other", R(0..5)>>
    [] k = 3 /\ Par -> <<"-geom">> \o R(Grids(NodesN, D))
    [] k = 4 /\ Par -> <<"-iogeom">> \o R({<<1, 1, 1, 1>>, <<1, 2, 1, 1>>, <<2, 1, 1, 2>>})
    [] k = 5 /\ Par -> <<"-V">>
    [] OTHER -> <<"more">>
BadArgs(q) == R({<<"-h">>, <<"-poolsize">>, <<"-poolsize">>} \cup (IF Par THEN {<<"-geom">>, <<"-geom", 1, 1>>, <<"-geom", 2, 1, 2, 1 + NodesN>>, <<"-geom", 0, 1, 1, 1>>, <<"-geom", -1, -1, 1, NodesN>>, <<"-iogeom", 1, 2, 1>>} ELSE {}))
ArgList(q) == LET n == R(0..2) m == [i \in 1..n |-> Args1(0)] IN IF R(1..12) = 1 THEN Append(m, BadArgs(0)) ELSE m
Early == hist = <<>>
Pick(q) == LET k == R(1..40) IN
  CASE k <= 4 \/ (k <= 30 /\ ~st.on /\ (Par => ~st.ever)) -> <<"init", ArgList(0)>>
    [] k <= 12 -> <<"size", (LET j == R(1..20) IN IF j <= 16 THEN Good(0) ELSE IF j <= 18 THEN Odd(0) ELSE Bad(0))>>
    [] k <= 18 -> <<"create">>
    [] k <= 24 -> <<"use", R(0..7)>>
    [] k <= 26 -> <<"destroy">>
    [] k = 27 -> <<"fin">>
    [] k = 28 -> <<"abort", R({1, 1, 2, 3, 7, 42, 120, 255})>>
    [] k = 29 -> <<"error", R({0, 1, 20, 200, 1000, 1023, 1024, 1500, 5000, 100000})>>
    [] k <= 31 -> <<"ask">>
    [] k = 32 -> <<"suspend">> [] k = 33 -> <<"resume">>
    [] k <= 36 -> <<"hold", R(0..7)>>
    [] OTHER -> <<"drop", R(0..7)>>
\* calls that end the process are taken rarely, so that lives are long
Ok(o) == Allowed(st, o) /\ (Fate(st, o) = "dies" => R(1..Long) = 1)
Choose1(c) == LET g == SelectSeq(c, Ok) IN IF g = <<>> THEN <<"ask">> ELSE g[1]
Cands(q) == [i \in 1..6 |-> Pick(0)]
Closing == IF st.on THEN <<"fin">> ELSE <<"ask">>
Init == st = Off /\ hist = <<>> /\ dead = FALSE
Take(o) == /\ hist' = Append(hist, o) /\ dead' = (Fate(st, o) = "dies")
           /\ \E g \in (IF o[1] = "create" /\ Fate(st, o) = "ok" THEN {TLCEval(R(GridsFor(st)))} ELSE {<<>>}) : st' = IF Fate(st, o) = "dies" THEN st ELSE After(st, o, g)
\* the grid is chosen by the machine, so a life only decides on extents that fit every grid it may be
Next == /\ ~dead /\ Len(hist) < Depth
        /\ IF Len(hist) = Depth - 1 THEN Take(Closing) ELSE \E c \in {TLCEval(Cands(0))} : \E o \in {TLCEval(Choose1(c))} : Take(o)
Spec == Init /\ [][Next]_<<st, hist, dead>>
Emit == (dead \/ Len(hist) = Depth) => PrintT(ToJson(hist))
=============================================================================
