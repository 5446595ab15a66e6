----------------------------- MODULE FieldExpr -----------------------------
(* Meaning of data-parallel expressions and statements: fields are functions
   of the global site; a statement assigns at each site of a subset the value
   of the expression there, computed from the values before the statement.   *)
EXTENDS Algebra, Lattice

IsNum(e) == e[1] = "num"
\* context c: fld (register -> field or scalar value), regs (letter -> register), L, nb (neighbours), maps, pars
\* Shape record of a register plus value at site g
RegVal(c, r, g) ==
  LET f == c.fld[r] IN [f.t EXCEPT !.v = IF f.lat THEN f.v[g] ELSE f.v]

Truth(x) == x.v[1] # 0
Scalar2(x, y, F(_, _)) == Num(F(x.v[1], y.v[1]))

RECURSIVE Eval(_, _, _)
Eval(c, e, g) ==
  LET op == e[1]
      A == Eval(c, e[2], g)
      B == Eval(c, e[3], g)
      D == Eval(c, e[4], g)
      K(i) == e[i][2]            \* constant argument
  IN
  CASE op = "reg" -> RegVal(c, c.regs[e[2]], g)
    [] op = "num" -> Num(e[2])
    [] op = "add" -> Add(A, B)
    [] op = "sub" -> Subt(A, B)
    [] op = "neg" -> Neg(A)
    [] op = "pos" -> A
    [] op = "mul" -> IF e[2][1] = "Gamma" THEN GammaLeft(e[2][2][2], B)
                     ELSE IF e[3][1] = "Gamma" THEN GammaRight(A, e[3][2][2])
                     ELSE IF e[2][1] = "adj" /\ e[3][1] = "adj" THEN GMul(Eval(c, e[2][2], g), Eval(c, e[3][2], g), TRUE, TRUE, TRUE, TRUE)
                     ELSE IF e[2][1] = "adj" THEN GMul(Eval(c, e[2][2], g), B, TRUE, FALSE, TRUE, FALSE)
                     ELSE IF e[3][1] = "adj" THEN GMul(A, Eval(c, e[3][2], g), FALSE, TRUE, FALSE, TRUE)
                     ELSE Mul(A, B)
    [] op = "idiv" -> [A EXCEPT !.v = [k \in 1..Len(A.v) |-> TruncDiv(A.v[k], B.v[1])]]
    [] op = "mod" -> Scalar2(A, B, LAMBDA a, b : TruncMod(a, b))
    [] op = "adj" -> Adj(A)
    [] op = "conj" -> Conj(A)
    [] op = "transpose" -> Trans(A)
    [] op = "transposeColor" -> TransColor(A)
    [] op = "transposeSpin" -> TransSpin(A)
    [] op = "trace" -> TraceAll(A)
    [] op = "traceColor" -> TraceColor(A)
    [] op = "traceSpin" -> TraceSpin(A)
    [] op = "realTrace" -> RealPart(TraceAll(A))
    [] op = "imagTrace" -> ImagPart(TraceAll(A))
    [] op = "traceMultiply" -> TraceAll(Mul(A, B))
    [] op = "traceColorMultiply" -> TraceColor(Mul(A, B))
    [] op = "traceSpinMultiply" -> TraceSpin(Mul(A, B))
    [] op = "real" -> RealPart(A)
    [] op = "imag" -> ImagPart(A)
    [] op = "cmplx" -> Cmplx(A, B)
    [] op = "timesI" -> TimesI(A)
    [] op = "timesMinusI" -> TimesMinusI(A)
    [] op = "localNorm2" -> LocalNorm2(A)
    [] op = "localInnerProduct" -> LocalInner(A, B)
    [] op = "localInnerProductReal" -> LocalInnerReal(A, B)
    [] op = "localColorInnerProduct" -> LocalColorInner(A, B)
    [] op = "outerProduct" -> Outer(A, B)
    [] op = "traceSpinOuterProduct" -> TraceSpin(Outer(A, B))
    [] op = "colorContract" -> ColorContract(A, B, D)
    [] op = "colorCrossProduct" -> ColorCross(A, B)
    [] op = "colorVectorContract" -> ColorVecContract(A, B)
    [] op = "quarkContract12" -> QuarkContract(12, A, B)
    [] op = "quarkContract13" -> QuarkContract(13, A, B)
    [] op = "quarkContract14" -> QuarkContract(14, A, B)
    [] op = "quarkContract23" -> QuarkContract(23, A, B)
    [] op = "quarkContract24" -> QuarkContract(24, A, B)
    [] op = "quarkContract34" -> QuarkContract(34, A, B)
    [] op = "quarkContractXX" -> QuarkContract(e[2][2], B, D)
    [] op = "traceSpinQuarkContract13" -> TraceSpin(QuarkContract(13, A, B))
    [] op = "where" -> IF Truth(A) THEN B ELSE D
    [] op \in {"lt", "le", "gt", "ge", "eq", "ne"} -> Cmp(op, A, B)
    [] op = "and" -> Bool(Truth(A) /\ Truth(B))
    [] op = "or" -> Bool(Truth(A) \/ Truth(B))
    [] op = "not" -> Bool(~Truth(A))
    [] op \in {"band", "bor", "bxor"} -> Scalar2(A, B, LAMBDA a, b : BitOp(op, a, b))
    [] op = "inv" -> Num(-A.v[1] - 1)
    [] op = "shl" -> Scalar2(A, B, LAMBDA a, b : a * P2(b))
    [] op = "shr" -> Scalar2(A, B, LAMBDA a, b : a \div P2(b))
    [] op = "fabs" -> Num(Abs(A.v[1]))
    [] op = "toBool" -> Bool(A.v[1] # 0)
    [] op = "pow" -> Num(A.v[1] * A.v[1])
    [] op = "shift" -> Eval(c, e[2], c.nb[e[4][2] + 1][IF e[3][2] > 0 THEN 1 ELSE 2][g])
    [] op = "smap" -> Eval(c, e[3], c.maps[e[2][2] + 1][g])
    [] op = "coord" -> Num(CoordAt(g - 1, c.L)[e[2][2] + 1])
    [] op = "GammaL" -> GammaLeft(e[2][2], B)
    [] op = "GammaR" -> GammaRight(A, e[3][2])
    [] op = "GammaDPL" -> GammaDPLeft(e[2][2], B)
    [] op = "GammaDPR" -> GammaDPRight(A, e[3][2])
    [] op = "chiralProjectPlus" -> ChiralProject(1, A)
    [] op = "chiralProjectMinus" -> ChiralProject(-1, A)
    [] op = "onePlusGamma" -> OnePlusGamma(e[2][2], e[3][2], D)
    [] op = "project" -> SpinProject(e[2][2], e[3][2], D)
    [] op = "reconstruct" -> SpinReconstruct(e[2][2], e[3][2], D)
    [] op = "peekSpinV" -> PeekSpinV(A, e[3][2])
    [] op = "peekSpinM" -> PeekSpinM(A, e[3][2], e[4][2])
    [] op = "peekColV" -> PeekColV(A, e[3][2])
    [] op = "peekColM" -> PeekColM(A, e[3][2], e[4][2])
    [] op = "pokeSpinV" -> PokeSpin(A, B, e[4][2], 0)
    [] op = "pokeSpinM" -> PokeSpin(A, B, e[4][2], e[5][2])
    [] op = "pokeColV" -> PokeCol(A, B, e[4][2], 0)
    [] op = "pokeColM" -> PokeCol(A, B, e[4][2], e[5][2])
    [] op = "at" -> Eval(c, e[2], c.site)            \* value at the site named by the event
    [] op = "ifsite" -> IF g = c.site THEN A ELSE B   \* first at the named site, second elsewhere
    [] op = "ifsub" -> IF c.msk[g] = 1 THEN A ELSE B  \* first on the statement's subset, second elsewhere
    \* reductions over the sites of the statement's subset
    [] op = "sum" -> c.sum[e[2]]
    [] op = "zero" -> [A EXCEPT !.v = [k \in 1..Len(A.v) |-> 0]]
    [] op = "scalarpart" -> A

\* statement operators; the declared type of the destination decides between real and complex
Combine(op, old, x) ==
  CASE op = "=" -> x
    [] op = "+=" -> Add(old, x)
    [] op = "-=" -> Subt(old, x)
    [] op = "*=" -> Mul(old, x)
    [] op = "/=" -> [old EXCEPT !.v = [k \in 1..Len(old.v) |-> TruncDiv(old.v[k], x.v[1])]]
    [] op = "%=" -> Num(TruncMod(old.v[1], x.v[1]))
    [] op = "&=" -> Num(BitOp("band", old.v[1], x.v[1]))
    [] op = "|=" -> Num(BitOp("bor", old.v[1], x.v[1]))
    [] op = "^=" -> Num(BitOp("bxor", old.v[1], x.v[1]))
    [] op = "<<=" -> Num(old.v[1] * P2(x.v[1]))
    [] op = ">>=" -> Num(old.v[1] \div P2(x.v[1]))

\* conversion of the result to the destination's type: a scalar assigned to a
\* matrix is that multiple of the unit matrix; a real is a complex with zero imaginary part
Fit(t, x) ==
  IF x.s = t.s /\ x.c = t.c /\ x.z = t.z THEN x.v
  ELSE LET F(i, j, p, q) == SpinGet(x, i, j, p, q) IN Build(t.s, t.n, t.c, t.m, t.z, F).v
=============================================================================
