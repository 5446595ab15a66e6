---------------------------- MODULE LatFileTrace ----------------------------
(* Validates recorded lattice file operations.  A field is a function from global
   lexicographic site number to its words; a file is a sequence of words.        *)
EXTENDS Lattice, SequencesExt, Json, IOUtils
C == INSTANCE Crc32
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, geo, fld, file, pos
vars == <<l, geo, fld, file, pos>>
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
t == Trace[l]
Empty == [L |-> <<>>]
Begin == IsEvent("begin") /\ geo' = Empty /\ fld' = <<>> /\ file' = <<>> /\ pos' = 0
Lat == IsEvent("lattice") /\
  /\ geo' = [L |-> t.dims, V |-> Vol(t.dims), subs |-> t.subs,
             lex |-> [r \in 1..Len(t.loc) |-> [i \in 1..Len(t.loc[r].sites) |-> Lex(t.loc[r].sites[i], t.dims) + 1]]]
  /\ fld' = <<>> /\ file' = <<>> /\ pos' = 0
\* the distributed values as one function of the global site
Global(loc) == LET where == [g \in 1..geo.V |-> CHOOSE ri \in {<<r, i>> : r \in 1..Len(loc), i \in 1..Len(geo.lex[1])} : geo.lex[ri[1]][ri[2]] = g] IN
               [g \in 1..geo.V |-> loc[where[g][1]].v[where[g][2]]]
\* every rank's sites carry what the field says
Holds(loc, f) == \A r \in 1..Len(loc) : Len(loc[r].v) = Len(geo.lex[r]) /\ \A i \in 1..Len(loc[r].v) : loc[r].v[i] = f[geo.lex[r][i]]
Field == IsEvent("field") /\ Holds(t.loc, TLCEval(Global(t.loc))) /\ fld' = (t.id :> TLCEval(Global(t.loc))) @@ fld /\ UNCHANGED <<geo, file, pos>>
\* the sites an operation transfers, in order (1-based global numbers)
All == [g \in 1..geo.V |-> g]
Sites == CASE t.op = "all" -> All
           [] t.op = "site" -> <<Lex(t.x, geo.L) + 1>>
           [] t.op = "slice" -> [i \in 1..(t.b - t.a) |-> t.a + i]
           [] t.op = "time" -> LET n == geo.V \div geo.L[Len(geo.L)] IN [i \in 1..n |-> t.a * n + i]
           [] t.op = "sub" -> SelectSeq(All, LAMBDA g : geo.subs[t.a][g] = 1)
\* a list of sites of one or (op "array": count in front) several fields
Words(f, s) == FoldLeft(LAMBDA acc, g : acc \o f[g], <<>>, s)
Wrote == IF t.op = "array" THEN FoldLeft(LAMBDA acc, id : acc \o TLCEval(Words(fld[id], All)), <<Len(t.ids)>>, t.ids)
         ELSE Words(fld[t.id], Sites)
WOpen == IsEvent("wopen") /\ file' = <<>> /\ pos' = 0 /\ UNCHANGED <<geo, fld>>
Write == IsEvent("wlat") /\ file' = file \o TLCEval(Wrote) /\ pos' = t.bytes /\ t.bytes - pos = t.width * (Len(file') - Len(file)) + (IF t.op = "array" THEN 4 - t.width ELSE 0)
         /\ t.fail = 0 /\ UNCHANGED <<geo, fld>>
WClose == IsEvent("wclose") /\ t.w = file /\ t.size = pos
          /\ (t.raw # <<>> => C!Crc(C!Zero, t.raw) = t.crc /\ Len(t.raw) = pos) /\ UNCHANGED <<geo, fld, file, pos>>
ROpen == IsEvent("ropen") /\ pos' = 0 /\ UNCHANGED <<geo, fld, file>>
\* words come back to the named sites; every other site keeps its value
Chunk(i, n, p) == SubSeq(file, p + (i - 1) * n + 1, p + i * n)
After(f, s, n, p) == LET at == [g \in 1..geo.V |-> 0] inv == FoldLeft(LAMBDA acc, i : [acc EXCEPT ![s[i]] = i], at, [i \in 1..Len(s) |-> i]) IN
                     [g \in 1..geo.V |-> IF inv[g] = 0 THEN f[g] ELSE Chunk(inv[g], n, p)]
Read == IsEvent("rlat") /\ UNCHANGED <<geo, file>> /\ t.fail = 0 /\
  IF t.op = "array" THEN
    /\ file[pos + 1] = Len(t.ids) /\ t.got = Len(t.ids) /\ pos' = pos + 1 + Len(t.ids) * geo.V * t.n
    /\ LET new == [k \in 1..Len(t.ids) |-> TLCEval(After(<<>>, All, t.n, pos + 1 + (k - 1) * geo.V * t.n))] IN
       /\ \A k \in 1..Len(t.ids) : Holds([r \in 1..Len(t.loc) |-> [v |-> t.loc[r].vs[k]]], new[k])
       /\ fld' = FoldLeft(LAMBDA acc, k : (t.ids[k] :> new[k]) @@ acc, fld, [k \in 1..Len(t.ids) |-> k])
  ELSE LET s == TLCEval(Sites) new == TLCEval(After(fld[t.id], s, t.n, pos)) IN
    /\ pos' = pos + Len(s) * t.n /\ pos' <= Len(file)
    /\ Holds(t.loc, new) /\ fld' = [fld EXCEPT ![t.id] = new]
RClose == IsEvent("rclose") /\ (t.raw # <<>> => C!Crc(C!Zero, t.raw) = t.crc) /\ UNCHANGED <<geo, fld, file, pos>>
TraceInit == l = 1 /\ geo = Empty /\ fld = <<>> /\ file = <<>> /\ pos = 0
End == IsEvent("end") /\ UNCHANGED <<geo, fld, file, pos>>
TraceNext == End \/ Begin \/ Lat \/ Field \/ WOpen \/ Write \/ WClose \/ ROpen \/ Read \/ RClose
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == PrintT(<<"PREFIX", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
