----------------------------- MODULE GaugeTrace -----------------------------
(* Validates recorded gauge archive operations.  The field: matrix by direction and global site. *)
EXTENDS Gauge, Json, IOUtils
Lt == INSTANCE Lattice
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, geo, u, arch
vars == <<l, geo, u, arch>>
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
t == Trace[l]
Begin == IsEvent("begin") /\ geo' = [L |-> <<>>] /\ u' = <<>> /\ arch' = [ok |-> FALSE]
Lat == IsEvent("lattice") /\ arch' = [ok |-> FALSE] /\ u' = <<>> /\
  geo' = [L |-> t.dims, V |-> Lt!Vol(t.dims), nb |-> TLCEval([g \in 1..Lt!Vol(t.dims) |-> [mu \in 1..4 |-> Lt!Lex(Lt!Neighbour(Lt!CoordAt(g - 1, t.dims), t.dims, 1, mu - 1), t.dims) + 1]]),
          lex |-> TLCEval([r \in 1..Len(t.loc) |-> [i \in 1..Len(t.loc[r].sites) |-> Lt!Lex(t.loc[r].sites[i], t.dims) + 1]])]
Where == [g \in 1..geo.V |-> CHOOSE ri \in {<<r, i>> : r \in 1..Len(geo.lex), i \in 1..Len(geo.lex[1])} : geo.lex[ri[1]][ri[2]] = g]
Global(loc) == LET w == TLCEval(Where) IN TLCEval([mu \in 1..4 |-> [g \in 1..geo.V |-> FromWords(loc[w[g][1]].u[mu][w[g][2]])]])
Words(f, n) == FoldLeft(LAMBDA acc, g : FoldLeft(LAMBDA a2, mu : a2 \o Flat(f[mu][g], n), acc, <<1, 2, 3, 4>>), <<>>, [g \in 1..geo.V |-> g])
FromFile(w, n) == TLCEval([mu \in 1..4 |-> [g \in 1..geo.V |-> LET p == n * (4 * (g - 1) + mu - 1) IN FromWords(SubSeq(w, p + 1, p + n))]])
\* twice nothing: sums over sites and planes of the real traces
Plaq(f) == FoldLeft(LAMBDA acc, g : acc + FoldLeft(LAMBDA a2, mn : a2 + (IF mn[1] <= mn[2] THEN 0 ELSE
              Trace3(TLCEval(Prod(TLCEval(Prod(f[mn[1]][g], f[mn[2]][geo.nb[g][mn[1]]])), TLCEval(Prod(Adj(f[mn[1]][geo.nb[g][mn[2]]]), Adj(f[mn[2]][g]))))))),
              0, SetToSeq((1..4) \X (1..4))), 0, [g \in 1..geo.V |-> g])
Link(f) == FoldLeft(LAMBDA acc, g : acc + FoldLeft(LAMBDA a2, mu : a2 + Trace3(f[mu][g]), 0, <<1, 2, 3, 4>>), 0, [g \in 1..geo.V |-> g])
SetU == IsEvent("u") /\ u' = Global(t.loc) /\ UNCHANGED <<geo, arch>>
Hdr(h) == [id |-> h.id, lab |-> h.lab, cre |-> h.cre, hw |-> h.hw, cd |-> h.cd, ad |-> h.ad, seq |-> h.seq, bc |-> h.bc]
Line(k) == {t.hd[i][2] : i \in {j \in 1..Len(t.hd) : t.hd[j][1] = k /\ Len(t.hd[j]) = 2}}
\* the header names the format of what follows it
Named == /\ t.hd[1] = <<"BEGIN_HEADER">> /\ t.hd[Len(t.hd)] = <<"END_HEADER">>
         /\ Line("DATATYPE") = {IF t.mat = 18 THEN "4D_SU3_GAUGE_3x3" ELSE "4D_SU3_GAUGE"}
         /\ Line("FLOATING_POINT") = {"IEEE32BIG"}
         /\ \A i \in 1..4 : Line("DIMENSION_" \o ToString(i)) = {ToString(geo.L[i])} /\ Line("BOUNDARY_" \o ToString(i)) = {IF t.bc[i] = 1 THEN "PERIODIC" ELSE "ANTIPERIODIC"}
Save == IsEvent("save") /\ t.w = Words(u, t.mat) /\ Named
  /\ t.hchk = Sum(t.w, 4)
  /\ (t.how = "hdr" => t.chk = t.hchk /\ t.plaq = Plaq(u) /\ t.link = Link(u) /\ t.nrow = geo.L
       /\ Line("SEQUENCE_NUMBER") = {ToString(t.seq)} /\ Line("ENSEMBLE_ID") = {t.id} /\ Line("ENSEMBLE_LABEL") = {t.lab} /\ Line("CREATOR") = {t.cre}
       /\ Line("CREATOR_HARDWARE") = {t.hw} /\ Line("CREATION_DATE") = {t.cd} /\ Line("ARCHIVE_DATE") = {t.ad})
  /\ arch' = [ok |-> TRUE, u |-> u, mat |-> t.mat, fs |-> 4, sum |-> Sum(t.w, 4), h |-> IF t.how = "plain" THEN <<>> ELSE Hdr(t)]
  /\ UNCHANGED <<geo, u>>
\* the same data in another of the forms the archive format allows
Recast == IsEvent("recast") /\ arch.ok /\ t.w = Words(arch.u, t.mat) /\ arch' = [arch EXCEPT !.mat = t.mat, !.fs = t.fs, !.sum = Sum(t.w, t.fs)] /\ UNCHANGED <<geo, u>>
Load == IsEvent("load") /\ arch.ok /\ Global(t.loc) = arch.u /\ u' = arch.u
  /\ (t.how # "plain" => t.plaq = Plaq(arch.u) /\ t.link = Link(arch.u) /\ t.nrow = geo.L /\ t.mat = arch.mat /\ t.chk = arch.sum /\ (arch.h # <<>> => Hdr(t) = arch.h))
  /\ UNCHANGED <<geo, arch>>
Chk == IsEvent("sum") /\ t.chk = Sum(Words(u, t.mat), 4) /\ UNCHANGED <<geo, u, arch>>
WLow == IsEvent("wlow") /\ t.w = Words(u, t.mat) /\ arch' = [ok |-> FALSE] /\ UNCHANGED <<geo, u>>
RLow == IsEvent("rlow") /\ t.chk = Sum(t.w, t.fs) /\ Global(t.loc) = FromFile(t.w, t.mat) /\ u' = FromFile(t.w, t.mat) /\ arch' = [ok |-> FALSE] /\ UNCHANGED geo
\* a damaged archive is refused: nothing can follow
Damage == IsEvent("damage") /\ arch.ok /\ arch' = [ok |-> FALSE, stop |-> TRUE] /\ UNCHANGED <<geo, u>>
End == IsEvent("end") /\ UNCHANGED <<geo, u, arch>>
TraceInit == l = 1 /\ geo = [L |-> <<>>] /\ u = <<>> /\ arch = [ok |-> FALSE]
TraceNext == Begin \/ Lat \/ SetU \/ Save \/ Recast \/ Load \/ Chk \/ WLow \/ RLow \/ Damage \/ (End /\ "stop" \notin DOMAIN arch)
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == PrintT(<<"PREFIX", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
