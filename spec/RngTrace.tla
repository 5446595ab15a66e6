------------------------------ MODULE RngTrace ------------------------------
(* validates recorded draws: every number and every state *)
EXTENDS Lattice, Json, IOUtils
R == INSTANCE RNG
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, seed, slot, geo
vars == <<l, seed, slot, geo>>
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
NoGeo == [L |-> <<>>]
Begin == IsEvent("begin") /\ seed' = R!DefaultSeed /\ slot' = <<>> /\ geo' = NoGeo

Lat ==
  /\ IsEvent("lattice")
  /\ LET t == Trace[l] V == Vol(t.dims) IN
     /\ geo' = [L |-> t.dims, V |-> V, subs |-> t.subs, mult |-> TLCEval(R!SiteMult(V)), st |-> TLCEval(R!Stride(V)),
                lex |-> [r \in 1..Len(t.loc) |-> [i \in 1..Len(t.loc[r].sites) |-> Lex(t.loc[r].sites[i], t.dims) + 1]]]
     /\ t.state = R!DefaultSeed          \* creating a layout starts the generator from its default seed
  /\ seed' = R!DefaultSeed /\ UNCHANGED slot

SetRn == IsEvent("setrn") /\ seed' = Trace[l].w /\ Trace[l].state = seed' /\ UNCHANGED <<slot, geo>>
Save == IsEvent("save") /\ UNCHANGED <<seed, geo>> /\ Trace[l].state = seed /\ slot' = (Trace[l].k :> seed) @@ slot
Restore == IsEvent("restore") /\ seed' = slot[Trace[l].k] /\ Trace[l].state = seed' /\ UNCHANGED <<slot, geo>>

\* one site: the n numbers, or untouched
SiteOk(g, inside, v, n) ==
  IF ~inside THEN \A k \in 1..n : v[k] = -7
  ELSE LET sk == R!Skewed(R!Mul(seed, geo.mult[g]), geo.st, n) IN \A k \in 1..n : v[k] >= 0 /\ R!Near(v[k], sk[k])
Rand ==
  /\ IsEvent("rand") /\ UNCHANGED <<slot, geo>>
  /\ LET t == Trace[l] msk == geo.subs[t.sub] IN
     /\ \A r \in 1..Len(t.loc) : Len(t.loc[r].v) = Len(geo.lex[r])
     /\ \A r \in 1..Len(t.loc) : \A i \in 1..Len(t.loc[r].v) :
          LET g == geo.lex[r][i] IN Len(t.loc[r].v[i]) = t.n /\ SiteOk(g, msk[g] = 1, t.loc[r].v[i], t.n)
     /\ seed' = R!AfterLattice(seed, geo.st, t.n)
     /\ t.state = seed'
Scal ==
  /\ IsEvent("scal") /\ UNCHANGED <<slot, geo>>
  /\ LET t == Trace[l] sk == R!Skewed(R!Mul(seed, R!Mult), R!Mult, t.n) IN
     /\ Len(t.v) = t.n /\ \A k \in 1..t.n : t.v[k] >= 0 /\ R!Near(t.v[k], sk[k])
     /\ seed' = R!AfterScalar(seed, t.n)
     /\ t.state = seed'
\* two uniform fields combined by the polar method, untouched outside the subset
Gauss ==
  /\ IsEvent("gauss") /\ UNCHANGED <<slot, geo>>
  /\ LET t == Trace[l] msk == geo.subs[t.sub] IN
     /\ \A r \in 1..Len(t.loc) : \A i \in 1..Len(t.loc[r].ok) : t.loc[r].ok[i] = (IF msk[geo.lex[r][i]] = 1 THEN 1 ELSE 2)
     /\ seed' = R!AfterLattice(seed, geo.st, 2 * t.n)
     /\ t.state = seed'
Same == IsEvent("state") /\ Trace[l].state = seed /\ UNCHANGED <<seed, slot, geo>>
TraceInit == l = 1 /\ seed = R!DefaultSeed /\ slot = <<>> /\ geo = NoGeo
TraceNext == Begin \/ Lat \/ SetRn \/ Save \/ Restore \/ Rand \/ Scal \/ Gauss \/ Same
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == PrintT(<<"PREFIX", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
