------------------------------ MODULE Lifecycle ------------------------------
(* The life of one process that uses the library.  State: whether the library is
   on; the lattice size wished for; the lattice there is (<<>> before the first),
   whether its random numbers may be used; the grid of nodes once it is decided;
   the grid of I/O nodes once it was given; the fields held.
   Fate: what a call must do -- "ok" or "dies" (the process ends with a failing exit;
   with the status the caller gave for abort).                                      *)
EXTENDS Layout, TLC
CONSTANTS Arch, Kind, NodesN, D
Off == [on |-> FALSE, ever |-> FALSE, want |-> <<>>, made |-> <<>>, rnd |-> FALSE, grid |-> <<>>, iogrid |-> <<>>, held |-> {}]
Prod(v) == Vol(v)
Par == Arch = "parscalar"
\* --- the command line: a sequence of words, strings or numbers
Numbers(w, i, n) == [j \in 1..n |-> w[i + j]]
Needs(o) == CASE o = "-poolsize" -> 1 [] o = "-geom" -> (IF Par THEN D ELSE 0) [] o = "-iogeom" -> (IF Par THEN D ELSE 0) [] o = "-bind" -> (IF Par THEN 1 ELSE 0) [] OTHER -> 0
RECURSIVE Parse(_, _, _)
\* args are <<name, value ...>> groups, so that a missing value is a short group
Parse(g, i, r) == IF i > Len(g) THEN r
  ELSE LET o == g[i] v == Tail(o) IN
    IF o[1] = "-h" THEN [r EXCEPT !.help = TRUE]
    ELSE IF Len(v) < Needs(o[1]) THEN [r EXCEPT !.short = TRUE]
    ELSE Parse(g, i + 1, CASE o[1] = "-geom" /\ Par -> [r EXCEPT !.geom = v] [] o[1] = "-iogeom" /\ Par -> [r EXCEPT !.iogeom = v] [] OTHER -> r)
Line(g) == Parse(g, 1, [help |-> FALSE, short |-> FALSE, geom |-> <<>>, iogeom |-> <<>>])
GeomOk(g) == g = <<>> \/ (/\ Len(g) = D /\ \A m \in 1..D : g[m] > 0
                          /\ \A m \in 1..D : g[m] <= NodesN
                          /\ Prod(g) = NodesN)
\* --- lattices
OkSize(L, g) == /\ Len(L) = D /\ FitsOn(Kind, L, NodesN)
                /\ (g # <<>> => \A m \in 1..D : (L[m] \div MinBlock(Kind, D)[m]) % g[m] = 0)
\* (between setting another size and creating it the lattice must not be used)
\* --- calls
Allowed(st, op) ==
  CASE op[1] = "init" -> ~(Par /\ st.ever /\ ~st.on)
    [] op[1] \in {"destroy", "hold", "use"} -> st.on /\ st.made # <<>> /\ (op[1] = "use" => st.rnd /\ st.want = st.made)
    [] op[1] = "drop" -> op[2] \in st.held
    [] op[1] \in {"suspend", "resume"} -> st.on
    [] op[1] \in {"abort", "error"} -> ~(Par /\ st.ever /\ ~st.on)
    [] OTHER -> TRUE
Fate(st, op) ==
  CASE op[1] = "init" -> (LET c == Line(op[2]) IN IF st.on \/ c.help \/ c.short \/ ~GeomOk(c.geom) THEN "dies" ELSE "ok")
    [] op[1] = "create" -> (IF st.on /\ OkSize(st.want, st.grid) THEN "ok" ELSE "dies")
    [] op[1] = "fin" -> (IF ~st.on /\ Par THEN "dies" ELSE "ok")
    [] op[1] \in {"abort", "error"} -> "dies"
    [] OTHER -> "ok"
Status(op) == IF op[1] = "abort" THEN op[2] ELSE 1
\* g: the grid of nodes after a creation
After(st, op, g) ==
  CASE op[1] = "init" -> [st EXCEPT !.on = TRUE, !.ever = TRUE, !.grid = IF Line(op[2]).geom # <<>> THEN Line(op[2]).geom ELSE @, !.iogrid = IF Par THEN Line(op[2]).iogeom ELSE @]
    [] op[1] = "size" -> [st EXCEPT !.want = op[2]]
    [] op[1] = "create" -> [st EXCEPT !.made = st.want, !.rnd = TRUE, !.grid = g]
    [] op[1] = "destroy" -> [st EXCEPT !.rnd = FALSE]
    [] op[1] = "fin" -> [st EXCEPT !.on = FALSE]
    [] op[1] = "hold" -> [st EXCEPT !.held = @ \cup {op[2]}]
    [] op[1] = "drop" -> [st EXCEPT !.held = @ \ {op[2]}]
    [] OTHER -> st
\* the grids a creation may choose
GridsFor(st) == IF st.grid # <<>> THEN {st.grid}
                ELSE {M \in Grids(NodesN, D) : \A m \in 1..D : (st.want[m] \div MinBlock(Kind, D)[m]) % M[m] = 0}
=============================================================================
