----------------------------- MODULE SetsTrace -----------------------------
(* validates a history of set operations and the site tables seen after each *)
EXTENDS Lattice, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, set, sub, lat, funs
NSet == 4
NSub == 4
S == INSTANCE Sets
vars == <<l, set, sub, lat, funs>>
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
NoLat == [L |-> <<>>]

Begin == IsEvent("begin") /\ set' = [k \in 1..NSet |-> 0] /\ sub' = [q \in 1..NSub |-> S!NoSub] /\ lat' = NoLat /\ funs' = <<>>

\* one subset as seen on node r: exactly the node's sites of colour c, with true flag and range
SubOk(o, r, colour(_), c) ==
  LET sites == lat.sites[r]
      want == {i \in 0..(Len(sites) - 1) : colour(sites[i + 1]) = c}
      seen == {o.tab[i] : i \in 1..Len(o.tab)}
      contig == want # {} /\ Max(want) - Min(want) + 1 = Cardinality(want)
  IN /\ seen = want /\ Len(o.tab) = Cardinality(want) /\ o.num = Len(o.tab)
     /\ o.color = c
     /\ o.ordered = contig
     /\ o.ordered => o.start..o.end = want
SetOk(o, r, colour(_), n) ==
  /\ o.n = n /\ Len(o.subs) = n
  /\ o.latcol = [i \in 1..Len(lat.sites[r]) |-> colour(lat.sites[r][i])]
  /\ \A c \in 0..(n - 1) : SubOk(o.subs[c + 1], r, colour, c) /\ o.subs[c + 1].mine

\* a lattice was (re)created: the default sets are the documented colourings
Zero(x) == 0
Lat ==
  /\ IsEvent("lattice")
  /\ LET t == Trace[l] n == Len(t.loc) IN
     /\ lat' = [L |-> t.dims, sites |-> [r \in 1..n |-> t.loc[r].sites]]
     /\ SumSeq([r \in 1..n |-> Len(t.loc[r].sites)]) = Vol(t.dims)
     /\ {t.loc[p[1]].sites[p[2]] : p \in UNION {{<<r, i>> : i \in 1..Len(t.loc[r].sites)} : r \in 1..n}} = AllCoords(t.dims)
  /\ funs' = <<>> /\ set' = [k \in 1..NSet |-> 0] /\ sub' = [q \in 1..NSub |-> S!NoSub]
Defaults ==
  /\ IsEvent("defaults") /\ UNCHANGED <<set, sub, lat, funs>>
  /\ \A r \in 1..Len(Trace[l].loc) : LET q == Trace[l].loc[r] IN
     /\ SetOk(q.rb, r, Parity, 2) /\ SetOk(q.rb3, r, Parity3, 2)
     /\ SetOk(q.mcb, r, Colour32, Pow2(Len(lat.L) + 1))
     /\ SubOk(q.all, r, Zero, 0) /\ SubOk(q.even, r, Parity, 0) /\ SubOk(q.odd, r, Parity, 1)
Funs == IsEvent("funs") /\ funs' = Trace[l].f /\ UNCHANGED <<set, sub, lat>>

ColourOf(f, x) == funs[f].col[Lex(x, lat.L) + 1]

\* after an operation every live set and every usable subset is seen as the model has it
Seen(t) ==
  \A r \in 1..Len(t.loc) :
    /\ \A k \in 1..NSet : set'[k] # 0 =>
         LET colour(x) == ColourOf(set'[k], x) IN
         /\ t.loc[r].sets[k].live /\ SetOk(t.loc[r].sets[k], r, colour, funs[set'[k]].n)
    /\ \A q \in 1..NSub : sub'[q].k # 0 =>
         LET colour(x) == ColourOf(set'[sub'[q].k], x) IN
         SubOk(t.loc[r].subs[q], r, colour, sub'[q].c)

Op == /\ IsEvent("op") /\ UNCHANGED <<lat, funs>>
      /\ LET a == Trace[l].a IN
         CASE Trace[l].op = "make" -> S!Make(a[1], a[2])
           [] Trace[l].op = "copy" -> S!Copy(a[1], a[2])
           [] Trace[l].op = "assign" -> S!Assign(a[1], a[2])
           [] Trace[l].op = "drop" -> S!Drop(a[1])
           [] Trace[l].op = "take" -> S!TakeSub(a[1], a[2], a[3])
           [] Trace[l].op = "copysub" -> S!CopySub(a[1], a[2])
      /\ Seen(Trace[l])

TraceInit == l = 1 /\ set = [k \in 1..NSet |-> 0] /\ sub = [q \in 1..NSub |-> [k |-> 0, c |-> 0]] /\ lat = NoLat /\ funs = <<>>
TraceNext == Begin \/ Lat \/ Defaults \/ Funs \/ Op
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == PrintT(<<"PREFIX", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
