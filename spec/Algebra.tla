------------------------------ MODULE Algebra ------------------------------
(* Site-local algebra of the library on exactly representable (integer) data.
   A value is a record: spin rank s (0 scalar, 1 vector, 2 matrix) with n spin
   components, colour rank c with m colours, z = 1 for complex, and the flat
   sequence v of components: spin (row major), colour (row major), re/im.     *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Bitwise

Sum(f, n) == FoldLeft(LAMBDA a, k : a + f[k], 0, [k \in 1..n |-> k])

Rows(r, n) == IF r = 0 THEN 1 ELSE n
Cols(r, n) == IF r = 2 THEN n ELSE 1
SpinLen(x) == Rows(x.s, x.n) * Cols(x.s, x.n)
ColLen(x) == Rows(x.c, x.m) * Cols(x.c, x.m)
NElem(x) == SpinLen(x) * ColLen(x)

Val(s, n, c, m, z, v) == [s |-> s, n |-> n, c |-> c, m |-> m, z |-> z, v |-> v]
Num(k) == Val(0, 1, 0, 1, 0, <<k>>)
Bool(b) == Num(IF b THEN 1 ELSE 0)

\* element e (0-based position of the complex or real number)
Re(x, e) == IF x.z = 1 THEN x.v[2 * e + 1] ELSE x.v[e + 1]
Im(x, e) == IF x.z = 1 THEN x.v[2 * e + 2] ELSE 0
\* position of spin entry (i,j), colour entry (p,q)
At(x, i, j, p, q) ==
  LET si == IF x.s = 0 THEN 0 ELSE IF x.s = 1 THEN i ELSE i * x.n + j
      ci == IF x.c = 0 THEN 0 ELSE IF x.c = 1 THEN p ELSE p * x.m + q
  IN  si * ColLen(x) + ci

Max2(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

\* build a value of the given shape from a function of the element coordinates giving <<re, im>>
Build(s, n, c, m, z, F(_, _, _, _)) ==
  LET cs == Cols(s, n)
      cr == Rows(c, m)
      cc == Cols(c, m)
      len == Rows(s, n) * cs * cr * cc
      el == TLCEval([e \in 0..(len - 1) |->
                LET ce == e % (cr * cc)  se == e \div (cr * cc) IN F(se \div cs, se % cs, ce \div cc, ce % cc)])
  IN  Val(s, n, c, m, z, IF z = 1 THEN [k \in 1..(2 * len) |-> el[(k - 1) \div 2][((k - 1) % 2) + 1]]
                         ELSE [k \in 1..len |-> el[k - 1][1]])

ZipC(x, y, z, F(_, _, _, _)) ==   \* same shape, per number: re/im of both -> <<re, im>>
  LET len == NElem(x)
      el == [e \in 0..(len - 1) |-> F(Re(x, e), Im(x, e), Re(y, e), Im(y, e))]
  IN  [x EXCEPT !.z = z, !.v = IF z = 1 THEN [k \in 1..(2 * len) |-> el[(k - 1) \div 2][((k - 1) % 2) + 1]]
                                       ELSE [k \in 1..len |-> el[k - 1][1]]]
SameShape(x, y) == x.s = y.s /\ x.c = y.c /\ (x.s = 0 \/ x.n = y.n) /\ (x.c = 0 \/ x.m = y.m)

\* scalar parts are promoted to multiples of the unit matrix
SpinGet(x, i, j, p, q) ==
  IF (x.s = 0 /\ i # j) \/ (x.c = 0 /\ p # q) THEN <<0, 0>>
  ELSE LET e == At(x, i, j, p, q) IN <<Re(x, e), Im(x, e)>>

AddS(x, y, sg) ==
  IF x.s = y.s /\ x.c = y.c THEN
    (IF x.z = y.z THEN [x EXCEPT !.v = [k \in 1..Len(x.v) |-> x.v[k] + sg * y.v[k]]]
     ELSE ZipC(x, y, 1, LAMBDA a, b, c, d : <<a + sg * c, b + sg * d>>))
  ELSE LET s == Max2(x.s, y.s)  c == Max2(x.c, y.c)
           n == IF x.s >= y.s THEN x.n ELSE y.n
           m == IF x.c >= y.c THEN x.m ELSE y.m
           F(i, j, p, q) == LET a == SpinGet(x, i, j, p, q) b == SpinGet(y, i, j, p, q)
                            IN <<a[1] + sg * b[1], a[2] + sg * b[2]>>
       IN Build(s, n, c, m, Max2(x.z, y.z), F)
Add(x, y) == AddS(x, y, 1)
Subt(x, y) == AddS(x, y, -1)
Neg(x) == [x EXCEPT !.v = [k \in 1..Len(x.v) |-> -x.v[k]]]

\* result rank and contraction of one factor of the tensor product
MulRank(a, b) == IF a = 0 THEN b ELSE IF b = 0 THEN a ELSE IF b = 1 THEN 1 ELSE 2
Seq0(k) == [i \in 1..k |-> i - 1]

\* general product; ca/cb: conjugate; ta/tb: transpose spin and colour
GMul(x, y, cx, cy, tx, ty) ==
  LET s == MulRank(x.s, y.s)  c == MulRank(x.c, y.c)
      n == IF x.s > 0 THEN x.n ELSE y.n
      m == IF x.c > 0 THEN x.m ELSE y.m
      ks == IF x.s > 0 /\ y.s > 0 THEN x.n ELSE 1
      kc == IF x.c > 0 /\ y.c > 0 THEN x.m ELSE 1
      z == Max2(x.z, y.z)
      sx == IF cx THEN -1 ELSE 1
      sy == IF cy THEN -1 ELSE 1
      PX(i, k, p, l) == IF tx THEN At(x, k, i, l, p) ELSE At(x, i, k, p, l)
      PY(k, j, l, q) == IF ty THEN At(y, j, k, q, l) ELSE At(y, k, j, l, q)
      F(i, j, p, q) ==
        FoldLeft(LAMBDA acc, kl :
            LET k == kl \div kc  l == kl % kc
                \* without contraction the factor of rank 0 has no index and the other keeps the result's
                ex == PX(i, IF ks > 1 THEN k ELSE j, p, IF kc > 1 THEN l ELSE q)
                ey == PY(IF ks > 1 THEN k ELSE i, j, IF kc > 1 THEN l ELSE p, q)
            IN IF z = 0 THEN <<acc[1] + x.v[ex + 1] * y.v[ey + 1], 0>>
               ELSE LET a == Re(x, ex) b == sx * Im(x, ex) d == Re(y, ey) f == sy * Im(y, ey)
                    IN <<acc[1] + a * d - b * f, acc[2] + a * f + b * d>>,
          <<0, 0>>, Seq0(ks * kc))
  IN Build(s, n, c, m, z, F)
Mul(x, y) == GMul(x, y, FALSE, FALSE, FALSE, FALSE)

MapC(x, F(_, _)) == ZipC(x, x, 1, LAMBDA a, b, c, d : F(a, b))
Conj(x) == IF x.z = 0 THEN x ELSE MapC(x, LAMBDA a, b : <<a, -b>>)
TimesI(x) == MapC(x, LAMBDA a, b : <<-b, a>>)
TimesMinusI(x) == MapC(x, LAMBDA a, b : <<b, -a>>)
RealPart(x) == ZipC(x, x, 0, LAMBDA a, b, c, d : <<a, 0>>)
ImagPart(x) == ZipC(x, x, 0, LAMBDA a, b, c, d : <<b, 0>>)
Cmplx(x, y) == ZipC(x, y, 1, LAMBDA a, b, c, d : <<a, c>>)
Pair(x, e) == <<Re(x, e), Im(x, e)>>
TransSpin(x) == Build(x.s, x.n, x.c, x.m, x.z, LAMBDA i, j, p, q : Pair(x, At(x, j, i, p, q)))
TransColor(x) == Build(x.s, x.n, x.c, x.m, x.z, LAMBDA i, j, p, q : Pair(x, At(x, i, j, q, p)))
Trans(x) == Build(x.s, x.n, x.c, x.m, x.z, LAMBDA i, j, p, q : Pair(x, At(x, j, i, q, p)))
Adj(x) == Conj(Trans(x))

AddP(a, b) == <<a[1] + b[1], a[2] + b[2]>>
TraceOver(x, sp, co) ==
  LET s == IF sp THEN 0 ELSE x.s  c == IF co THEN 0 ELSE x.c
      ks == IF sp /\ x.s = 2 THEN x.n ELSE 1
      kc == IF co /\ x.c = 2 THEN x.m ELSE 1
      F(i, j, p, q) == FoldLeft(LAMBDA acc, kl :
          LET k == kl \div kc  l == kl % kc
              ii == IF sp THEN k ELSE i  jj == IF sp THEN k ELSE j
              pp == IF co THEN l ELSE p  qq == IF co THEN l ELSE q
          IN AddP(acc, Pair(x, At(x, ii, jj, pp, qq))), <<0, 0>>, Seq0(ks * kc))
  IN Build(s, x.n, c, x.m, x.z, F)
TraceAll(x) == TraceOver(x, TRUE, TRUE)
TraceColor(x) == TraceOver(x, FALSE, TRUE)
TraceSpin(x) == TraceOver(x, TRUE, FALSE)

LocalNorm2(x) == Num(FoldLeft(LAMBDA a, k : a + x.v[k] * x.v[k], 0, [k \in 1..Len(x.v) |-> k]))
LocalInner(x, y) ==   \* sum of conj(x) y
  LET len == NElem(x)
      r == FoldLeft(LAMBDA acc, e : AddP(acc, <<Re(x, e) * Re(y, e) + Im(x, e) * Im(y, e), Re(x, e) * Im(y, e) - Im(x, e) * Re(y, e)>>),
                    <<0, 0>>, Seq0(len))
  IN IF x.z = 1 \/ y.z = 1 THEN Val(0, 1, 0, 1, 1, r) ELSE Num(r[1])
LocalInnerReal(x, y) == RealPart(LocalInner(x, y))
\* contraction over colour only
LocalColorInner(x, y) ==
  LET kc == ColLen(x)
      F(i, j, p, q) == FoldLeft(LAMBDA acc, l :
          LET a == At(x, i, j, l, 0)  b == At(y, i, j, l, 0)
          IN AddP(acc, <<Re(x, a) * Re(y, b) + Im(x, a) * Im(y, b), Re(x, a) * Im(y, b) - Im(x, a) * Re(y, b)>>), <<0, 0>>, Seq0(kc))
  IN Build(x.s, x.n, 0, 1, 1, F)
\* outer product  x conj(y)  of vectors gives a matrix in every factor
Outer(x, y) ==
  LET F(i, j, p, q) == LET a == Pair(x, At(x, i, 0, p, 0))  b == Pair(y, At(y, j, 0, q, 0))
                       IN <<a[1] * b[1] + a[2] * b[2], a[2] * b[1] - a[1] * b[2]>>
  IN Build(IF x.s = 1 THEN 2 ELSE 0, x.n, IF x.c = 1 THEN 2 ELSE 0, x.m, 1, F)

\* antisymmetric tensor
Eps3(a, b, c) == IF a = b \/ b = c \/ a = c THEN 0 ELSE IF (b - a + 3) % 3 = 1 THEN 1 ELSE -1
CMulP(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
ScaleP(k, a) == <<k * a[1], k * a[2]>>
Triples == <<<<0,1,2>>, <<1,2,0>>, <<2,0,1>>, <<0,2,1>>, <<2,1,0>>, <<1,0,2>>>>
\* epsilon_ijk epsilon_lmn x_il y_jm z_kn  (colour matrices)
ColorContract(x, y, w) ==
  LET F(i, j, p, q) == FoldLeft(LAMBDA acc, t :
        FoldLeft(LAMBDA ac2, u :
           AddP(ac2, ScaleP(Eps3(t[1], t[2], t[3]) * Eps3(u[1], u[2], u[3]),
                CMulP(CMulP(Pair(x, At(x, 0, 0, t[1], u[1])), Pair(y, At(y, 0, 0, t[2], u[2]))), Pair(w, At(w, 0, 0, t[3], u[3]))))),
           acc, Triples), <<0, 0>>, Triples)
  IN Build(0, 1, 0, 1, 1, F)
ColorCross(x, y) ==
  LET F(i, j, p, q) == FoldLeft(LAMBDA acc, t :
          IF t[1] # p THEN acc ELSE
          AddP(acc, ScaleP(Eps3(t[1], t[2], t[3]), CMulP(Pair(x, At(x, 0, 0, t[2], 0)), Pair(y, At(y, 0, 0, t[3], 0))))), <<0, 0>>, Triples)
  IN Build(0, 1, 1, x.m, 1, F)
\* sum of x_p y_p, without conjugation
ColorVecContract(x, y) ==
  LET kc == ColLen(x)
      F(i, j, p, q) == FoldLeft(LAMBDA acc, l : AddP(acc, CMulP(Pair(x, At(x, i, j, l, 0)), Pair(y, At(y, i, j, l, 0)))), <<0, 0>>, Seq0(kc))
  IN Build(x.s, x.n, 0, 1, 1, F)

\* quark contraction over a pair of spin indices: epsilon epsilon contraction of two propagators,
\*   r(n,k) = eps_ijk eps_lmn  A(i,l) B(j,m)  with spin indices contracted as named
QuarkContract(kind, x, y) ==
  LET N == x.n
      SpinPos(a, b, k) == \* spin entries of x and y contributing to result (a,b) for contraction index k
        CASE kind = 13 -> <<k, a, k, b>>
          [] kind = 14 -> <<k, a, b, k>>
          [] kind = 23 -> <<a, k, k, b>>
          [] kind = 24 -> <<a, k, b, k>>
          [] kind = 12 -> <<k, k, a, b>>
          [] kind = 34 -> <<a, b, k, k>>
      F(a, b, p, q) ==
        FoldLeft(LAMBDA acc, k :
          LET sp == SpinPos(a, b, k) IN
          FoldLeft(LAMBDA ac1, t :
            IF t[3] # q THEN ac1 ELSE
            FoldLeft(LAMBDA ac2, u :
              IF u[3] # p THEN ac2 ELSE
              AddP(ac2, ScaleP(Eps3(t[1], t[2], t[3]) * Eps3(u[1], u[2], u[3]),
                 CMulP(Pair(x, At(x, sp[1], sp[2], t[1], u[1])), Pair(y, At(y, sp[3], sp[4], t[2], u[2]))))),
              ac1, Triples), acc, Triples), <<0, 0>>, Seq0(N))
  IN Build(2, N, 2, x.m, 1, F)

\* ---- components
PeekSpinV(x, i) == Build(0, 1, x.c, x.m, x.z, LAMBDA a, b, p, q : Pair(x, At(x, i, 0, p, q)))
PeekSpinM(x, i, j) == Build(0, 1, x.c, x.m, x.z, LAMBDA a, b, p, q : Pair(x, At(x, i, j, p, q)))
PeekColV(x, i) == Build(x.s, x.n, 0, 1, x.z, LAMBDA a, b, p, q : Pair(x, At(x, a, b, i, 0)))
PeekColM(x, i, j) == Build(x.s, x.n, 0, 1, x.z, LAMBDA a, b, p, q : Pair(x, At(x, a, b, i, j)))
PokeSpin(x, y, i, j) == Build(x.s, x.n, x.c, x.m, x.z, LAMBDA a, b, p, q :
     IF a = i /\ (x.s = 1 \/ b = j) THEN Pair(y, At(y, 0, 0, p, q)) ELSE Pair(x, At(x, a, b, p, q)))
PokeCol(x, y, i, j) == Build(x.s, x.n, x.c, x.m, x.z, LAMBDA a, b, p, q :
     IF p = i /\ (x.c = 1 \/ q = j) THEN Pair(y, At(y, a, b, 0, 0)) ELSE Pair(x, At(x, a, b, p, q)))

\* ---- comparisons, logic, integers (component-wise on real scalars)
Cmp(op, x, y) ==
  LET a == x.v[1]  b == y.v[1] IN
  CASE op = "lt" -> Bool(a < b) [] op = "le" -> Bool(a <= b) [] op = "gt" -> Bool(a > b)
    [] op = "ge" -> Bool(a >= b) [] op = "eq" -> Bool(a = b) [] op = "ne" -> Bool(a # b)
\* two's complement bit operations through non-negative numbers
Low(a) == a % 1073741824            \* 30 low bits; operands are small
Signed(u) == IF u >= 536870912 THEN u - 1073741824 ELSE u
BitOp(op, a, b) ==
  LET x == Low(a) y == Low(b) IN
  Signed(CASE op = "band" -> x & y [] op = "bor" -> x | y [] op = "bxor" -> x ^^ y)
RECURSIVE P2(_)
P2(n) == IF n <= 0 THEN 1 ELSE 2 * P2(n - 1)
TruncDiv(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
TruncMod(a, b) == a - b * TruncDiv(a, b)

\* ---- spin algebra: DeGrand-Rossi basis, gamma_k as <<column, phase>> per row, phase in powers of i
GammaRow(k) ==  \* k in 1..4; row -> <<column, phase>>
  CASE k = 1 -> <<<<3, 1>>, <<2, 1>>, <<1, 3>>, <<0, 3>>>>
    [] k = 2 -> <<<<3, 2>>, <<2, 0>>, <<1, 0>>, <<0, 2>>>>
    [] k = 3 -> <<<<2, 1>>, <<3, 3>>, <<0, 3>>, <<1, 1>>>>
    [] k = 4 -> <<<<2, 0>>, <<3, 0>>, <<0, 0>>, <<1, 0>>>>
UnitRow == <<<<0, 0>>, <<1, 0>>, <<2, 0>>, <<3, 0>>>>
\* Dirac-Pauli basis
GammaRowDP(k) ==
  CASE k = 1 -> <<<<3, 3>>, <<2, 3>>, <<1, 1>>, <<0, 1>>>>
    [] k = 2 -> <<<<3, 2>>, <<2, 0>>, <<1, 0>>, <<0, 2>>>>
    [] k = 3 -> <<<<2, 3>>, <<3, 1>>, <<0, 1>>, <<1, 3>>>>
    [] k = 4 -> <<<<0, 0>>, <<1, 0>>, <<2, 2>>, <<3, 2>>>>
\* (A B): row r of A goes to column c with phase f, then row c of B
RowMul(A, B) == [r \in 1..4 |-> LET a == A[r] b == B[a[1] + 1] IN <<b[1], (a[2] + b[2]) % 4>>]
GammaProdOf(R(_), n) ==   \* gamma_1^n0 gamma_2^n1 gamma_3^n2 gamma_4^n3
  LET P(k, bit) == IF (n \div P2(bit)) % 2 = 1 THEN R(k) ELSE UnitRow
  IN RowMul(RowMul(RowMul(P(1, 0), P(2, 1)), P(3, 2)), P(4, 3))
GammaProd(n) == GammaProdOf(GammaRow, n)
GammaProdDP(n) == GammaProdOf(GammaRowDP, n)
PhaseMul(f, a) == CASE f = 0 -> a [] f = 1 -> <<-a[2], a[1]>> [] f = 2 -> <<-a[1], -a[2]>> [] f = 3 -> <<a[2], -a[1]>>
RowsLeft(G, x) ==
  Build(x.s, x.n, x.c, x.m, 1, LAMBDA i, j, p, q : PhaseMul(G[i + 1][2], Pair(x, At(x, G[i + 1][1], j, p, q))))
\* (x G)_{ij} = sum_k x_ik G_kj
RowsRight(x, G) ==
  LET Inv == TLCEval([j \in 0..3 |-> CHOOSE k \in 0..3 : G[k + 1][1] = j])
  IN Build(x.s, x.n, x.c, x.m, 1, LAMBDA i, j, p, q : PhaseMul(G[Inv[j] + 1][2], Pair(x, At(x, i, Inv[j], p, q))))
GammaLeft(n, x) == LET G == TLCEval(GammaProd(n)) IN RowsLeft(G, x)
GammaRight(x, n) == LET G == TLCEval(GammaProd(n)) IN RowsRight(x, G)
GammaDPLeft(n, x) == LET G == TLCEval(GammaProdDP(n)) IN RowsLeft(G, x)
GammaDPRight(x, n) == LET G == TLCEval(GammaProdDP(n)) IN RowsRight(x, G)
\* (1 + sg gamma_mu) x, mu 0-based
OnePlusGamma(mu, sg, x) == AddS(x, GammaLeft(P2(mu), x), sg)
\* the half spinor: the upper two spin components of (1 + sg gamma_mu) x
UpperHalf(x) == Build(x.s, 2, x.c, x.m, x.z, LAMBDA i, j, p, q : Pair(x, At(x, i, j, p, q)))
SpinProject(mu, sg, x) == UpperHalf(OnePlusGamma(mu, sg, x))
\* the full spinor whose lower components follow from being in the image of (1 + sg gamma_mu)
LowerRow(mu, sg, r) == \* lower component r (2,3) of the reconstructed spinor: phase times upper component
  LET g == GammaRow(mu + 1)[r + 1] IN <<g[1], (g[2] + (IF sg = 1 THEN 0 ELSE 2)) % 4>>
SpinReconstruct(mu, sg, h) ==
  Build(h.s, 4, h.c, h.m, 1, LAMBDA i, j, p, q :
     IF i < 2 THEN Pair(h, At(h, i, j, p, q))
     ELSE LET t == LowerRow(mu, sg, i) IN PhaseMul(t[2], Pair(h, At(h, t[1], j, p, q))))
\* (1 +- gamma5)/2: gamma5 is diagonal in this basis
Gamma5Sign(i) == LET g == GammaProd(15)[i + 1] IN IF g[2] = 0 THEN 1 ELSE -1
ChiralProject(sg, x) ==
  Build(x.s, x.n, x.c, x.m, x.z, LAMBDA i, j, p, q : IF Gamma5Sign(i) = sg THEN Pair(x, At(x, i, j, p, q)) ELSE <<0, 0>>)
=============================================================================
