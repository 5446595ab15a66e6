--------------------------- MODULE LifecycleModel ---------------------------
(* Every short life over a few lattices.  lib is what the library holds: the lattice its
   sets, shift tables, random number multipliers were made for, and the seed.  Creating
   makes all of them anew; Forget leaves one of them as it was (not sound).             *)
EXTENDS Lifecycle
CONSTANTS Steps, Forget
VARIABLES st, lib, dead, n, log
Lats == {<<2, 1>>, <<4, 2>>, <<1, 2>>, <<0, 2>>, <<2>>}
Lines == {<<>>, << <<"-h">> >>, << <<"-poolsize">> >>, << <<"-geom", 2, 1>> >>, << <<"-geom", 1, 2>> >>, << <<"-geom", 2, 2>> >>}
Fresh(L) == [sets |-> L, maps |-> L, mult |-> L, seed |-> 0]
Ops == {<<"init", a>> : a \in Lines} \cup {<<"size", L>> : L \in Lats} \cup {<<"create">>, <<"destroy">>, <<"fin">>, <<"use", 0>>, <<"use", 2>>, <<"abort", 3>>, <<"error", 0>>}
Build(L) == [Fresh(L) EXCEPT !.sets = IF Forget = "sets" /\ lib.sets # <<>> THEN lib.sets ELSE @, !.maps = IF Forget = "maps" /\ lib.maps # <<>> THEN lib.maps ELSE @,
                             !.mult = IF Forget = "mult" /\ lib.mult # <<>> THEN lib.mult ELSE @, !.seed = IF Forget = "seed" THEN lib.seed ELSE @]
Init == st = Off /\ lib = Fresh(<<>>) /\ dead = FALSE /\ n = 0 /\ log = <<>>
Do(op) == /\ Allowed(st, op) /\ log' = Append(log, op)
          /\ IF Fate(st, op) = "dies" THEN dead' = TRUE /\ UNCHANGED <<st, lib>>
             ELSE /\ dead' = FALSE
                  /\ \E g \in (IF op[1] = "create" THEN GridsFor(st) ELSE {<<>>}) : st' = After(st, op, g)
                  /\ lib' = CASE op[1] = "create" -> Build(st.want)
                             [] op[1] = "use" -> [lib EXCEPT !.seed = IF @ < 3 THEN @ + 1 ELSE @]
                             [] op[1] = "destroy" -> [lib EXCEPT !.mult = <<>>]
                             [] OTHER -> lib
Next == ~dead /\ n < Steps /\ n' = n + 1 /\ \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_<<st, lib, dead, n, log>>
LastOf(S) == LET I == {i \in 1..Len(log) : log[i][1] \in S} IN IF I = {} THEN 0 ELSE Max(I)
\* what the protocol promises, told from the calls alone
OnRight == ~dead => (st.on <=> (LastOf({"init"}) > 0 /\ LastOf({"init"}) > LastOf({"fin"})))
CreatedOn == ~dead => \A i \in 1..Len(log) : log[i][1] = "create" => \E j \in 1..(i - 1) : log[j][1] = "init" /\ \A k \in j..(i - 1) : log[k][1] # "fin"
NeverTwice == ~dead => \A i, j \in 1..Len(log) : (i < j /\ log[i][1] = "init" /\ log[j][1] = "init") => \E k \in i..j : log[k][1] = "fin"
GoodLattice == st.made # <<>> => OkSize(st.made, st.grid) /\ Len(st.made) = D
OneGrid == [][st.grid # <<>> => st'.grid = st.grid]_st
FreshStart == (log # <<>> /\ log[Len(log)][1] = "create" /\ ~dead) => lib = Fresh(st.made)
=============================================================================
