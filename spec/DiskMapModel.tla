---------------------------- MODULE DiskMapModel ----------------------------
(* The protocol by which a disk map keeps its promise.  The file is a pointer in the header and
   a sequence of regions: records (a value) and key tables (a map from keys to regions).  A
   new record or a key table is put at the end; a record is overwritten where it is; the
   pointer is written last.  Every write is a step of its own and the process may die between
   any two of them.  AtEnd = FALSE is the protocol that puts a new record wherever the last
   read left off.                                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys, Vals, Steps, AtEnd
VARIABLES ptr, reg, map, pos, todo, alive, want, safe, n
vars == <<ptr, reg, map, pos, todo, alive, want, safe, n>>
Empty == [k \in {} |-> 0]
R(v) == [kind |-> "rec", val |-> v, tab |-> Empty]
T(m) == [kind |-> "tab", val |-> 0, tab |-> m]
PutAt(q, x) == IF q <= Len(reg) THEN [reg EXCEPT ![q] = x] ELSE Append(reg, x)
\* want: what the user has inserted; safe: what a completed flush has made durable (keys to sets of values)
Init == ptr = 0 /\ reg = <<>> /\ map = Empty /\ pos = 1 /\ todo = <<>> /\ alive = TRUE /\ want = Empty /\ safe = Empty /\ n = 0
Idle == alive /\ todo = <<>> /\ n < Steps /\ n' = n + 1
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Insert == \E k \in Keys, v \in Vals : Idle /\ UNCHANGED <<ptr, reg, map, pos, alive, want>>
  /\ todo' = <<<<"rec", k, v>>>> /\ safe' = IF k \in DOMAIN safe THEN [safe EXCEPT ![k] = {}] ELSE safe     \* promised nothing while it is being overwritten
Read == \E k \in DOMAIN map : Idle /\ pos' = map[k] + 1 /\ UNCHANGED <<ptr, reg, map, todo, alive, want, safe>>
Flush == Idle /\ todo' = <<<<"tab">>, <<"ptr">>>> /\ UNCHANGED <<ptr, reg, map, pos, alive, want, safe>>
Write == /\ alive /\ todo # <<>> /\ todo' = Tail(todo) /\ UNCHANGED <<alive, n>>
         /\ LET w == todo[1] IN
            CASE w[1] = "rec" -> LET q == IF w[2] \in DOMAIN map THEN map[w[2]] ELSE IF AtEnd THEN Len(reg) + 1 ELSE pos IN
                   reg' = PutAt(q, R(w[3])) /\ map' = With(map, w[2], q) /\ want' = With(want, w[2], w[3]) /\ pos' = q + 1 /\ UNCHANGED <<ptr, safe>>
              [] w[1] = "tab" -> reg' = Append(reg, T(map)) /\ pos' = Len(reg) + 2 /\ UNCHANGED <<ptr, map, want, safe>>
              [] w[1] = "ptr" -> ptr' = Len(reg) /\ pos' = Len(reg) + 1 /\ safe' = [k \in DOMAIN want |-> {want[k]}] /\ UNCHANGED <<reg, map, want>>
Die == alive /\ alive' = FALSE /\ UNCHANGED <<ptr, reg, map, pos, todo, want, safe, n>>
Next == Insert \/ Read \/ Flush \/ Write \/ Die
Spec == Init /\ [][Next]_vars
\* what another process finds
Recovered(k) == LET t == reg[ptr] IN IF ptr > 0 /\ t.kind = "tab" /\ k \in DOMAIN t.tab THEN (IF reg[t.tab[k]].kind = "rec" THEN {reg[t.tab[k]].val} ELSE {}) ELSE {}
Durable == \A k \in DOMAIN safe : safe[k] = {} \/ Recovered(k) = safe[k]
LastValue == alive /\ todo = <<>> => \A k \in DOMAIN want : k \in DOMAIN map /\ reg[map[k]] = R(want[k])
PointsAtTable == ptr > 0 => reg[ptr].kind = "tab"
=============================================================================
