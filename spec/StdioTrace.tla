----------------------------- MODULE StdioTrace -----------------------------
(* conformance of QDPIO::cin, cout and cerr: per statement, the bytes that arrive on each
   node's stream, the state of that stream afterwards, and the values read            *)
EXTENDS TextFmt, FiniteSets, TLC, Json, IOUtils, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, fmt, inp, p, bad     \* format state of cout and cerr (functions over "cout", "cerr"), input text, position, failed
vars == <<l, fmt, inp, p, bad>>
t == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Streams == {"cout", "cerr"}
\* floats and doubles are printed with 7 and 15 digits whatever the stream is set to
Prec(v, f) == CASE v.t = "float" -> [f EXCEPT !.prec = 7] [] v.t = "double" -> [f EXCEPT !.prec = 15] [] OTHER -> f
Sh(v, f) == Show(v, Prec(v, f))
RECURSIVE Cat(_, _)
Cat(vs, f) == IF vs = <<>> THEN <<>> ELSE Sh(vs[1], f) \o Cat(Tail(vs), f)
Cpx(a, b, f) == <<40, 32>> \o Sh(a, f) \o <<32, 44, 32>> \o Sh(b, f) \o <<32, 41>>
RECURSIVE CatC(_, _)
CatC(vs, f) == IF vs = <<>> THEN <<>> ELSE Cpx(vs[1], vs[2], f) \o CatC(SubSeq(vs, 3, Len(vs)), f)
Out(o, vs, f) == IF o \in {"Complex", "ComplexD", "ColorVector", "SpinVector", "Fermion", "ComplexExpr"} THEN CatC(vs, f)
                 ELSE IF o = "Seed" THEN Sh(vs[1], f) \o <<32>> \o Sh(vs[2], f) \o <<32>> \o Sh(vs[3], f) \o <<32>> \o Sh(vs[4], f) \o <<10>>
                 ELSE Cat(vs, f)
\* the primary node's stream gets the bytes, the others nothing; formats are as before
Arrived(b) == Len(t.loc) >= 1 /\ \A r \in 1..Len(t.loc) : t.loc[r].out = (IF r = 1 THEN b ELSE <<>>)
State(f) == \A r \in 1..Len(t.loc) : t.loc[r].fmt = <<f.base, IF f.ff = "g" THEN 0 ELSE IF f.ff = "e" THEN 1 ELSE 2, IF f.alpha THEN 1 ELSE 0, IF f.pos THEN 1 ELSE 0, IF f.up THEN 1 ELSE 0, f.prec>>
Quiet == \A r \in 1..Len(t.loc) : t.loc[r].other = <<>>
Syncs(n) == \A r \in 1..Len(t.loc) : t.loc[r].sync = (IF r = 1 THEN n ELSE 0)
Begin == IsEvent("begin") /\ fmt' = [s \in Streams |-> Default] /\ inp' = <<>> /\ p' = 1 /\ bad' = FALSE
Write == IsEvent("w") /\ t.fail = 0 /\ Quiet /\ Syncs(0) /\ Arrived(TLCEval(Out(t.o, t.vs, fmt[t.s]))) /\ State(fmt[t.s]) /\ UNCHANGED <<fmt, inp, p, bad>>
Manip == IsEvent("m") /\ Quiet /\ Arrived(CASE t.m = "endl" -> <<10>> [] t.m = "ends" -> <<0>> [] t.m = "flush" -> <<>>) /\ Syncs(IF t.m \in {"endl", "flush"} THEN 1 ELSE 0)
         /\ State(fmt[t.s]) /\ UNCHANGED <<fmt, inp, p, bad>>
\* the program changes the format of the underlying stream itself (on every node)
Man(f, m) == CASE m = "hex" -> [f EXCEPT !.base = 16] [] m = "oct" -> [f EXCEPT !.base = 8] [] m = "dec" -> [f EXCEPT !.base = 10]
               [] m = "fixed" -> [f EXCEPT !.ff = "f"] [] m = "scientific" -> [f EXCEPT !.ff = "e"] [] m = "general" -> [f EXCEPT !.ff = "g"]
               [] m = "boolalpha" -> [f EXCEPT !.alpha = TRUE] [] m = "noboolalpha" -> [f EXCEPT !.alpha = FALSE]
               [] m = "showpos" -> [f EXCEPT !.pos = TRUE] [] m = "noshowpos" -> [f EXCEPT !.pos = FALSE] [] m = "uppercase" -> [f EXCEPT !.up = TRUE] [] m = "nouppercase" -> [f EXCEPT !.up = FALSE]
Set == IsEvent("set") /\ fmt' = [fmt EXCEPT ![t.s] = Man(@, t.m)] /\ State(fmt'[t.s]) /\ UNCHANGED <<inp, p, bad>>
Flush == IsEvent("flush") /\ Quiet /\ Arrived(<<>>) /\ Syncs(1) /\ State(fmt[t.s]) /\ UNCHANGED <<fmt, inp, p, bad>>
SetPrec == IsEvent("prec") /\ fmt' = [fmt EXCEPT ![t.s].prec = t.p] /\ UNCHANGED <<inp, p, bad>>
Input == IsEvent("input") /\ inp' = t.b /\ p' = 1 /\ bad' = FALSE /\ UNCHANGED fmt
RECURSIVE TakeAll(_, _, _, _)
TakeAll(s, at, ts, i) == IF i > Len(ts) THEN [ok |-> TRUE, vs |-> <<>>, p |-> at]
   ELSE LET r == Take(s, at, ts[i]) IN IF ~r.ok THEN [ok |-> FALSE, vs |-> <<>>, p |-> r.p]
        ELSE LET q == TakeAll(s, r.p, ts, i + 1) IN [ok |-> q.ok, vs |-> <<r.v>> \o q.vs, p |-> q.p]
SameFloat(ty, got, want) == got.neg = want.neg /\ LET n == Sure(ty) IN
  IF want.d = <<0>> THEN got.d = <<0>> ELSE Len(want.d) <= n /\ got.d # <<0>> /\ <<Strip(got.d), got.x>> = <<want.d, want.x>>
Same(ty, got, want) == IF ty \in Floats THEN SameFloat(ty, got, want) ELSE got.v = want
\* the primary node's input moves on by what was read; the other nodes' input is not touched
Read == IsEvent("r") /\
  IF bad THEN t.fail = 1 /\ UNCHANGED <<fmt, inp, p, bad>>
  ELSE LET n == Len(t.vs) ts == [i \in 1..n |-> t.vs[i].t] r == TLCEval(TakeAll(inp, p, ts, 1)) IN
    /\ t.fail = (IF r.ok THEN 0 ELSE 1)
    /\ r.ok => \A i \in 1..n : Same(ts[i], t.vs[i], r.vs[i])
    /\ bad' = ~r.ok /\ p' = r.p /\ UNCHANGED <<fmt, inp>>
    /\ r.ok => \A q \in 1..Len(t.loc) : t.loc[q].left = IF q = 1 THEN Len(inp) + 1 - r.p ELSE t.loc[q].all
TraceInit == l = 1 /\ fmt = [s \in Streams |-> Default] /\ inp = <<>> /\ p = 1 /\ bad = FALSE
TraceNext == Begin \/ Write \/ Manip \/ Flush \/ Set \/ SetPrec \/ Input \/ Read
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == PrintT(<<"PREFIX", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
