----------------------------- MODULE AllocTrace -----------------------------
(* Conformance of recorded histories.  After every operation the trace lists every storage:
   <<slot, index, address (in units of 2^24 bytes, rest), bytes, value (-1: not uniform),
     1 if it lies within one block of memory that is live>>
   and counts the blocks released that were not live.                                     *)
EXTENDS Alloc, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, al, sites, base, lat
t == Trace[l]
vars == <<l, st, al, sites, base, lat>>
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Begin == IsEvent("begin") /\ st' = Start /\ al' = 0 /\ sites' = <<>> /\ base' = [x \in {} |-> 0] /\ lat' = 0
\* al: promised alignment; sites: number of sites of each of the four subsets (the whole first); word: bytes of a number
Setup == IsEvent("setup") /\ al' = <<t.align, t.word>> /\ sites' = t.sites /\ lat' = t.lat /\ UNCHANGED <<st, base>>
Width(ty) == al[2] * (CASE ty = "R" -> 1 [] ty = "C" -> 2 [] ty = "M" -> 18 [] ty = "D" -> 24)
Size(ob) == CASE ob.k = "raw" -> ob.n [] ob.k = "sub" -> Width("R") * sites[ob.n + 1] [] OTHER -> Width(ob.t) * sites[1]
Wrap(a) == <<a[1] + a[2] \div 16777216, a[2] % 16777216>>
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
End(b) == Wrap(<<b[3], b[4] + b[5]>>)
At(b) == <<b[3], b[4]>>
Apart(b, c) == IF b[5] = 0 \/ c[5] = 0 THEN At(b) # At(c) ELSE ~(Less(At(b), End(c)) /\ Less(At(c), End(b)))
Blocks == t.blk
Storages == /\ {<<Blocks[i][1], Blocks[i][2]>> : i \in 1..Len(Blocks)} = UNION {{<<s, i>> : i \in 1..Len(st'[s].v)} : s \in 1..Slots}
            /\ \A i \in 1..Len(Blocks) : LET b == Blocks[i] ob == st'[b[1]] IN
                 /\ b[5] = Size(ob) /\ b[7] = 1
                 /\ (b[5] > 0 => b[6] = ob.v[b[2]])
                 /\ b[4] % al[1] = 0
            /\ \A i, j \in 1..Len(Blocks) : i < j => Apart(Blocks[i], Blocks[j])
Op == /\ IsEvent("op") /\ Pre(st, t.op) /\ st' = TLCEval(Do(st, t.op)) /\ t.bad = 0
      /\ Storages
      /\ IF t.op[1] = "clear"
         THEN base' = (IF lat \in DOMAIN base THEN base ELSE [x \in DOMAIN base \cup {lat} |-> IF x = lat THEN t.live ELSE base[x]]) /\ base'[lat] = t.live
         ELSE UNCHANGED base
      /\ UNCHANGED <<al, sites, lat>>
\* releasing something that was not given out ends the process with a failing exit
Refused == IsEvent("exit") /\ t.rc = 1 /\ Trace[l - 1].e = "try" /\ UNCHANGED <<st, al, sites, base, lat>>
Try == IsEvent("try") /\ t.op[1] = "bad" /\ UNCHANGED <<st, al, sites, base, lat>>
TraceInit == l = 1 /\ st = Start /\ al = 0 /\ sites = <<>> /\ base = [x \in {} |-> 0] /\ lat = 0
TraceNext == Begin \/ Setup \/ Op \/ Try \/ Refused
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == PrintT(<<"PREFIX", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
