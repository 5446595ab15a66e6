---------------------------- MODULE RannyuTrace ----------------------------
EXTENDS Integers, Sequences, TLC, Json, IOUtils
G == INSTANCE RNG
R == INSTANCE Rannyu WITH W <- 4096, A <- <<0, 1, 3513, 821>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, seed, slot, held, qdp
vars == <<l, seed, slot, held, qdp>>
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Default == <<13, 15, 1, 17>>
Reset == seed' = Default /\ slot' = <<>> /\ held' = <<>> /\ qdp' = G!DefaultSeed
Begin == IsEvent("begin") /\ Reset
\* the numbers drawn from x on, and the state after them
RECURSIVE Draws(_, _)
Draws(x, v) == IF v = <<>> THEN [ok |-> TRUE, x |-> x]
               ELSE LET y == TLCEval(R!Step(x)) IN
                    IF v[1] = R!Hi(y) /\ v[2] = R!Lo(y) THEN Draws(y, Tail(Tail(v))) ELSE [ok |-> FALSE, x |-> y]
Draw == IsEvent("draw") /\ LET d == Draws(seed, Trace[l].v) IN d.ok /\ seed' = d.x
        /\ UNCHANGED <<slot, held, qdp>>
Set == IsEvent("set") /\ seed' = Trace[l].w /\ UNCHANGED <<slot, held, qdp>>
Save == IsEvent("save") /\ Trace[l].state = seed /\ slot' = (Trace[l].k :> seed) @@ slot /\ UNCHANGED <<seed, held, qdp>>
Restore == IsEvent("restore") /\ seed' = slot[Trace[l].k] /\ UNCHANGED <<slot, held, qdp>>
Hold == IsEvent("hold") /\ held' = (Trace[l].k :> Trace[l].w) @@ held /\ UNCHANGED <<seed, slot, qdp>>
\* a self-contained state: draws come from it alone, and the shared generator is left alone
HDraw == IsEvent("hdraw") /\ LET d == Draws(held[Trace[l].k], Trace[l].v) IN
           d.ok /\ d.x = Trace[l].state /\ held' = [held EXCEPT ![Trace[l].k] = d.x]
         /\ UNCHANGED <<seed, slot, qdp>>
Copy == IsEvent("copy") /\ held' = (Trace[l].to :> held[Trace[l].k]) @@ held /\ UNCHANGED <<seed, slot, qdp>>
\* the lattice generator is a different one
Qdp == IsEvent("qdp") /\ qdp' = G!AfterScalar(qdp, 1) /\ Trace[l].state = qdp' /\ UNCHANGED <<seed, slot, held>>
TraceInit == l = 1 /\ seed = Default /\ slot = <<>> /\ held = <<>> /\ qdp = G!DefaultSeed
TraceNext == Begin \/ Draw \/ Set \/ Save \/ Restore \/ Hold \/ HDraw \/ Copy \/ Qdp
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == PrintT(<<"PREFIX", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
