------------------------------ MODULE Dispatch ------------------------------
(* Splitting n indices among the threads of a team.  Each thread that gets a share works
   through it index by index; the shares are formed by Low/High.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, T, Good
VARIABLES n, k, pc, at, done
vars == <<n, k, pc, at, done>>
Active == IF k > n THEN n ELSE k
Low(i) == IF Good THEN (n * i) \div Active ELSE i * (n \div Active)
High(i) == IF Good THEN (n * (i + 1)) \div Active ELSE (i + 1) * (n \div Active)
Init == /\ n \in 0..N /\ k \in 1..T /\ pc = [i \in 0..(k - 1) |-> "start"] /\ at = [i \in 0..(k - 1) |-> 0]
        /\ done = [j \in 0..(n - 1) |-> 0]
Enter(i) == pc[i] = "start" /\ UNCHANGED <<n, k, done>> /\
            (IF i < n THEN pc' = [pc EXCEPT ![i] = "work"] /\ at' = [at EXCEPT ![i] = Low(i)]
             ELSE pc' = [pc EXCEPT ![i] = "end"] /\ UNCHANGED at)
Work(i) == pc[i] = "work" /\ UNCHANGED <<n, k>> /\
           (IF at[i] < High(i) THEN done' = [done EXCEPT ![at[i]] = @ + 1] /\ at' = [at EXCEPT ![i] = @ + 1] /\ UNCHANGED pc
            ELSE pc' = [pc EXCEPT ![i] = "end"] /\ UNCHANGED <<at, done>>)
Next == \E i \in 0..(k - 1) : Enter(i) \/ Work(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
AtMostOnce == \A j \in DOMAIN done : done[j] <= 1
Covered == (\A i \in DOMAIN pc : pc[i] = "end") => \A j \in DOMAIN done : done[j] = 1
Terminates == <>(\A i \in DOMAIN pc : pc[i] = "end")
=============================================================================
