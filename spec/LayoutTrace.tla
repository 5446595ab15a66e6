---------------------------- MODULE LayoutTrace ----------------------------
(* Validates what a running library reports about its layout.  The trace is a
   sequence of  create / layout / refused  events of one or more runs.       *)
EXTENDS Layout, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, asked
vars == <<l, asked>>

IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1

Begin == IsEvent("begin") /\ asked' = [e |-> "none"]
Create == IsEvent("create") /\ asked' = Trace[l]

\* a layout event: the reported tables describe a bijection
Layout ==
  /\ IsEvent("layout") /\ asked' = asked
  /\ LET t == Trace[l]
         Lt == t.latt
         V == Vol(Lt)
         n == t.nodes
         Sg == t.sub
         per == V \div n
     IN
     /\ Lt = asked.dims /\ t.vol = V /\ n = asked.nodes
     /\ \A m \in 1..Len(Lt) : Lt[m] > 0
     /\ Len(t.logical) = Len(Lt) /\ ProdSeq(t.logical) = n
     /\ Sg = [m \in 1..Len(Lt) |-> Lt[m] \div t.logical[m]]
     /\ \A m \in 1..Len(Lt) : Lt[m] % t.logical[m] = 0
     /\ per * n = V
     \* node numbers and node coordinates are inverse
     /\ Len(t.nodecoord) = n
     /\ \A r \in 1..n : /\ InLattice(t.nodecoord[r], t.logical)
                        /\ t.nodenum[r] = r - 1
     /\ Cardinality({t.nodecoord[r] : r \in 1..n}) = n
     \* every node's table: its block's sites, each once
     /\ Len(t.site) = n
     /\ \A r \in 1..n : Len(t.site[r]) = per /\
          \A i \in 1..per :
             LET x == t.site[r][i] IN
             /\ InLattice(x, Lt)
             /\ NodeCoord(x, Sg) = t.nodecoord[r]
             \* and the conversions lead back
             /\ LET g == Lex(x, Lt) IN t.where[g + 1] = <<r - 1, i - 1>>
     /\ Len(t.where) = V
     /\ Cardinality({t.where[g] : g \in 1..V}) = V
     /\ t.cwhere = t.where /\ t.csame
     \* index of the lexicographic site
     /\ Len(t.lexlin) = V
     /\ \A g \in 0..(V - 1) :
          t.lexlin[g + 1] = t.where[g + 1][2]
     \* lexicographic position in the block, x fastest
     /\ t.loclex = [i \in 1..per |-> CoordAt(i - 1, Sg)]
     \* nodeCoord(x) of every site is that of the node which owns it
     /\ \A g \in 1..V : t.coordof[g] = t.nodecoord[t.where[g][1] + 1]
     \* what each node says about itself
     /\ Len(t.loc) = n
     /\ \A r \in 1..n : LET q == t.loc[r] IN
          /\ q.me = r - 1 /\ q.mycoord = t.nodecoord[r] /\ q.sites = per /\ q.primary = (r = 1)

\* the library refused: only if the layout kind cannot represent the size
Refused ==
  /\ IsEvent("refused") /\ asked' = asked
  /\ LET a == asked IN
       \/ \E m \in 1..Len(a.dims) : a.dims[m] <= 0
       \/ ~ FitsOn(a.kind, a.dims, a.nodes)

TraceInit == l = 1 /\ asked = [e |-> "none"]
TraceNext == Begin \/ Create \/ Layout \/ Refused
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == PrintT(<<"PREFIX", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
