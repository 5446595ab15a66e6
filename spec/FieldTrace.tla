----------------------------- MODULE FieldTrace -----------------------------
(* Validates histories of data-parallel statements against FieldExpr.        *)
EXTENDS FieldExpr, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, fld, geo
vars == <<l, fld, geo>>
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
NoGeo == [L |-> <<>>]

Begin == IsEvent("begin") /\ fld' = <<>> /\ geo' = NoGeo

\* the lattice: where[g] = <<rank, local position>> of global site g (1-based)
Lat ==
  /\ IsEvent("lattice")
  /\ LET t == Trace[l]
         V == Vol(t.dims)
         pairs == UNION { { <<Lex(t.loc[r].sites[i], t.dims) + 1, r, i>> : i \in 1..Len(t.loc[r].sites) } : r \in 1..Len(t.loc) }
         byg == TLCEval(SetToSortSeq(pairs, LAMBDA a, b : a[1] < b[1]))
     IN
     /\ Len(byg) = V /\ \A g \in 1..V : byg[g][1] = g
     /\ geo' = [L |-> t.dims, V |-> V, where |-> [g \in 1..V |-> <<byg[g][2], byg[g][3]>>],
                nb |-> [m \in 1..Len(t.dims) |-> [k \in 1..2 |->
                         [g \in 1..V |-> Lex(Neighbour(CoordAt(g - 1, t.dims), t.dims, IF k = 1 THEN 1 ELSE -1, m - 1), t.dims) + 1]]],
                subs |-> t.subs, maps |-> t.maps]
  /\ fld' = [r \in {} |-> 0]

Gather(loc) == [g \in 1..geo.V |-> loc[geo.where[g][1]].v[geo.where[g][2]]]
\* every node logged exactly its own sites
Complete(loc) == \A r \in 1..Len(loc) : Len(loc[r].v) = Cardinality({g \in 1..geo.V : geo.where[g][1] = r})

TypeOf(t) == Val(t[1], t[2], t[3], t[4], t[5], <<>>)
Fill ==
  /\ IsEvent("fill") /\ UNCHANGED geo
  /\ LET t == Trace[l] IN
     fld' = (t.reg :> [t |-> TypeOf(t.t), lat |-> t.lat, v |-> IF t.lat THEN Gather(t.loc) ELSE t.val]) @@ fld

\* where an expression contains reductions they are computed once, over the subset
RECURSIVE SumOver(_, _, _, _)
SumOver(c, e, gs, i) ==
  IF i > Len(gs) THEN <<>>
  ELSE LET x == TLCEval(Eval(c, e, gs[i])) IN
       IF i = Len(gs) THEN x ELSE Add(x, SumOver(c, e, gs, i + 1))
Range0(n) == [i \in 1..n |-> i]
MaskedSites(msk) == SelectSeq(Range0(geo.V), LAMBDA g : msk[g] = 1)

\* reduction kinds: e = <<"red", kind, expr>>; zero of the result's type for an empty subset
Reduce(c, kind, e, gs, t) ==
  LET vals == [i \in 1..Len(gs) |-> TLCEval(Eval(c, e, gs[i]))] IN
  CASE kind = "sum" -> IF gs = <<>> THEN [k \in 1..t.len |-> 0]
                       ELSE FoldLeft(LAMBDA a, i : Add(a, vals[i]), vals[1], [i \in 1..(Len(gs) - 1) |-> i + 1]).v
    [] kind = "one" -> Eval(c, e, 1).v
    [] kind = "max" -> LET S == {vals[i].v[1] : i \in 1..Len(gs)} IN <<CHOOSE m \in S : \A k \in S : k <= m>>
    [] kind = "min" -> LET S == {vals[i].v[1] : i \in 1..Len(gs)} IN <<CHOOSE m \in S : \A k \in S : k >= m>>
    [] kind = "any" -> <<IF \E i \in 1..Len(gs) : Truth(vals[i]) THEN 1 ELSE 0>>
    [] kind = "all" -> <<IF \A i \in 1..Len(gs) : Truth(vals[i]) THEN 1 ELSE 0>>

Ctx(t) == [fld |-> fld, regs |-> t.regs, L |-> geo.L, nb |-> geo.nb, maps |-> geo.maps,
           site |-> IF "site" \in DOMAIN t THEN Lex(t.site, geo.L) + 1 ELSE 1,
           msk |-> geo.subs[t.sub], sum |-> <<>>]

Quiet(t) == \A r \in 1..Len(t.loc) : t.loc[r].others = <<>>

\* a statement on a lattice destination
Assign ==
  /\ IsEvent("op") /\ Trace[l].kind = "assign" /\ UNCHANGED geo
  /\ LET t == Trace[l]
         c == Ctx(t)
         d == t.regs["D"]
         f == fld[d]
         S == geo.subs[t.sub]
         new == TLCEval([g \in 1..geo.V |->
                   IF S[g] = 1 THEN TLCEval(Fit(f.t, Combine(t.asg, [f.t EXCEPT !.v = f.v[g]], Eval(c, t.ast, g)))) ELSE f.v[g]])
     IN /\ Complete(t.loc)
        /\ \A g \in 1..geo.V : t.loc[geo.where[g][1]].v[geo.where[g][2]] = new[g]
        /\ Quiet(t)
        /\ fld' = [fld EXCEPT ![d].v = new]

\* a statement on a scalar destination
AssignScalar ==
  /\ IsEvent("op") /\ Trace[l].kind = "scalar" /\ UNCHANGED geo
  /\ LET t == Trace[l]
         d == t.regs["D"]
         f == fld[d]
         x == Combine(t.asg, [f.t EXCEPT !.v = f.v], Eval(Ctx(t), t.ast, 1))
     IN /\ t.val = Fit(f.t, x) /\ Quiet(t)
        /\ fld' = [fld EXCEPT ![d].v = t.val]

\* a global reduction; its result has the named shape
RedOp ==
  /\ IsEvent("op") /\ Trace[l].kind = "red" /\ UNCHANGED <<geo, fld>>
  /\ LET t == Trace[l] IN
     /\ t.val = Reduce(Ctx(t), t.red, t.ast, MaskedSites(geo.subs[t.sub]), [len |-> Len(t.val)])
     /\ Quiet(t)
\* reductions over every subset of a set, one result per colour
RedMulti ==
  /\ IsEvent("op") /\ Trace[l].kind = "redmulti" /\ UNCHANGED <<geo, fld>>
  /\ LET t == Trace[l] IN
     /\ Len(t.vals) = Len(t.set)
     /\ \A k \in 1..Len(t.set) :
          t.vals[k] = Reduce(Ctx(t), "sum", t.ast, MaskedSites(t.set[k]), [len |-> Len(t.vals[k])])
     /\ Quiet(t)
\* a result that is a list of site values (bulk extraction)
Extract ==
  /\ IsEvent("op") /\ Trace[l].kind = "extract" /\ UNCHANGED <<geo, fld>>
  /\ LET t == Trace[l] c == Ctx(t) IN
     /\ \A r \in 1..Len(t.loc) : \A i \in 1..Len(t.loc[r].x) :
           LET g == Lex(t.loc[r].xs[i], geo.L) + 1 IN
           /\ geo.subs[t.sub][g] = 1 /\ t.loc[r].x[i] = Eval(c, t.ast, g).v
     /\ SumSeq([r \in 1..Len(t.loc) |-> Len(t.loc[r].x)]) = Len(MaskedSites(geo.subs[t.sub]))
     /\ \A r \in 1..Len(t.loc) : IsInjective(t.loc[r].xs) /\ Len(t.loc[r].xs) = Len(t.loc[r].x)
     /\ Quiet(t)

TraceInit == l = 1 /\ fld = <<>> /\ geo = NoGeo
TraceNext == Begin \/ Lat \/ Fill \/ Assign \/ AssignScalar \/ RedOp \/ RedMulti \/ Extract
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == PrintT(<<"PREFIX", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
