"""The tables of data-parallel statements the fields engine runs (see fieldgen.parse_ops for the format)."""


def lines(*xs): return "\n".join(xs) + "\n"


def c04():
    o = ["M = M M : A*B", "M = M M : A*adj(B)", "M = M M : adj(A)*B", "M += M M : A*B", "M -= M M : A*adj(B)", "F = M F : A*B",
         "M = M M M : A*B + C", "M = M M M : A*(B - adj(C))", "M = M M M : transpose(A)*conj(B) + C*A", "M = M : adj(D) + A",
         "F = F F : A + B", "F = F F : A - B", "F = F : -A", "F = F : +A", "F += F : A", "F -= F : A", "F = F F F : A + (B - C)", "F = F F F : A - (B - C)",
         "R = R R : A+B", "R = R R R : A*B - C*A", "R += R R : A*B", "R -= R : A", "R *= R : A", "C = C C : A*B", "C *= C : A", "C = C R : A*B + B", "C = R C : A*B",
         "I = I I : A+B*A", "I *= I : A", "I += I : A", "I -= I : A", "B = R R : A<B", "B = R R : A<=B", "B = R R : A>B", "B = R R : A>=B", "B = R R : A==B", "B = R R : A!=B",
         "B = B B : A && B", "B = B B : A || B", "B = B : !A", "B = I I : A<B", "B = I i : A==B", "R = B R R : where(A,B,C)", "C = B C C : where(A,B,C)",
         "M = B M M : where(A,B,C)", "F = B F F : where(A,B,C)", "F = R R F F : where(A<B, C, E)",
         # scalars broadcast to the lattice
         "M = m M : A*B", "M = M m : A*B", "M = m : A", "C = c : A", "R = r : A", "F = f : A", "V = v : A", "I = i : A", "B = b : A", "P = p : A",
         "R = R r : A*B", "R = r R : A - B", "F = r F : A*B", "F = F c : A*B", "F = c F F : A*B + C", "V = m V : A*B", "M = R M : A*B", "M = c M M : A*B - C", "F = M f : A*B",
         "M = r : A", "M = c : A", "C = r : A", "M = r M : A + B", "M = M c : B - A",
         # constants and whole fields
         "M proc : D@ = zero => zero(D)", "F proc : D@ = zero => zero(D)", "R proc : D@ = zero => zero(D)", "I proc : D@ = zero => zero(D)",
         "P proc : D@ = zero => zero(D)", "C proc : D@ = zero => zero(D)",
         "R = : 3", "M = : 2", "C = : -1", "I = : 7", "R += : 2", "M += : 3", "C *= : 2",
         "M proc! M : D = A => A", "F proc! F : D = A => A", "V proc! V : D = A => A", "R proc! R : D = A => A", "P proc! P : D = A => A", "I proc! I : D = A => A", "B proc! B : D = A => A",
         "M = M : A", "F = F : A", "V = V : A", "P = P : A", "R = R : A", "C = C : A", "I = I : A", "B = B : A", "H = H : A", "S = S : A",
         "M += M : A", "M -= M : A", "P += P : A", "P -= P : A", "C += C : A", "C -= C : A", "V += V : A", "V -= V : A", "H += H : A", "M *= r : A", "F *= r : A", "V *= r : A", "C *= r : A", "R *= r : A", "P *= r : A",
         "M *= R : A", "F *= R : A", "F *= c : A", "F *= C : A",
         # conditional copies
         "M proc! B M : copymask(D, A, B) => where(A, B, D)", "F proc! B F : copymask(D, A, B) => where(A, B, D)", "R proc! B R : copymask(D, A, B) => where(A, B, D)",
         "P proc! B P : copymask(D, A, B) => where(A, B, D)", "C proc! B C : copymask(D, A, B) => where(A, B, D)", "I proc! B I : copymask(D, A, B) => where(A, B, D)",
         # deeper expressions
         "P = P M : A*B", "P = M P : A*B", "P = P P : A*B", "P = P P P : A*B + C", "F = P F : A*B", "P = P P : adj(A)*B", "P = P P : A*adj(B)",
         "F = M M F : A*(B*C)", "F = M M F : (A*B)*C", "F = M F M F : A*B + adj(C)*E", "C = M M : trace(A*B)", "C = P P : trace(A*adj(B))", "R = M M : real(trace(A*B))",
         "M = C M R M : A*B + C*E", "M = M M : timesI(A) + B", "M = M M R R : where(C < E, A*B, A - B)", "C = R R : cmplx(A,B)", "C = R R R : cmplx(A*B, C)", "R = C : real(A)", "R = C : imag(A)",
         "M = R R M : cmplx(A,B)*C", "V = M V V : A*B + C", "V = M V V : adj(A)*B - C", "H = M H : A*B", "H = M H H : adj(A)*B + C", "S = S S : A*B", "W = S W : A*B",
         "F = M F : A*shift(B, FORWARD, 0)", "F += M F : A*shift(B, BACKWARD, 3)", "M = M M : A*shift(B, FORWARD, 1)*adj(A)", "F -= M F : shift(adj(A)*B, BACKWARD, 2)",
         "R = R : A*D + D", "F = F : D + A + D", "M += : D", "F += : D", "R = : D*D", "C = : D*D", 
         "R = : Layout::latticeCoordinate(1) => coord(1)", "I = : Layout::latticeCoordinate(3) => coord(3)", "R = R : A + Layout::latticeCoordinate(0) => A + coord(0)",
         "I = : Layout::latticeCoordinate(2) * Layout::latticeCoordinate(0) => coord(2)*coord(0)",
         # scalar destinations
         "m = m m : A*B", "m += m m : A*adj(B)", "c = c c : A*B", "r = r r : A + B", "f = m f : A*B", "r *= r : A", "b = r r : A < B", "p = p p : A*B", "i = i i : A + B", "c -= c c : A*B", "m proc : D = zero => zero(D)",
         "m = r m : A*B", "f = c f f : A*B + C", "r = m m : real(trace(A*B))", "r = b r r : where(A,B,C)", "v = m v : adj(A)*B",
         ]
    return lines(*o)


def c24():
    o = []
    A = o.append
    U = ["adj", "conj", "transpose"]
    for t in "M P S C".split():
        for u in U: A(f"{t} = {t} : {u}(A)")
    for t in "V F H C M P W S".split():
        A(f"{t} = {t} : timesI(A)"); A(f"{t} = {t} : timesMinusI(A)"); A(f"{t} = {t} : -A"); A(f"{t} = {t} : conj(A)")
        A(f"R = {t} : localNorm2(A)"); A(f"C = {t} {t} : localInnerProduct(A,B)"); A(f"R = {t} {t} : localInnerProductReal(A,B)")
        A(f"{t} = {t} {t} : A + B"); A(f"{t} = {t} {t} : A - B"); A(f"{t} = R {t} : A*B"); A(f"{t} = {t} R : A*B"); A(f"{t} = C {t} : A*B"); A(f"{t} = {t} C : A*B")
        A(f"{t} *= R : A"); A(f"{t} *= C : A"); A(f"{t} = c {t} : A*B"); A(f"{t} = {t} r : A*B"); A(f"{t} = B {t} {t} : where(A,B,C)")
    A("P = P : transposeColor(A)"); A("P = P : transposeSpin(A)"); A("S = S : transposeSpin(A)")
    A("C = M : trace(A)"); A("C = P : trace(A)"); A("C = S : trace(A)"); A("S = P : traceColor(A)"); A("M = P : traceSpin(A)"); A("C = M : traceColor(A)"); A("C = S : traceSpin(A)")
    A("R = M : real(trace(A))"); A("R = P : real(trace(A))"); A("R = M : imag(trace(A))"); A("R = M : imagTrace(A)"); A("R = M : realTrace(A)"); A("R = P : imagTrace(A)"); A("R = S : realTrace(A)")
    for a, b in (("M", "M"), ("P", "P"), ("S", "S"), ("P", "M"), ("M", "P")):
        A(f"C = {a} {b} : trace(A*B)"); A(f"C = {a} {b} : trace(adj(A)*B)"); A(f"C = {a} {b} : trace(A*adj(B))"); A(f"C = {a} {b} : trace(adj(A)*adj(B))")
        if a == b: A(f"R = {a} {b} : real(trace(adj(A)*B))")
    A("M = P P : traceSpin(A*B)"); A("S = P P : traceColor(A*B)"); A("M = P P : traceSpin(adj(A)*B)"); A("S = P P : traceColor(A*adj(B))"); A("M = S P : traceSpin(A*B)"); A("S = M P : traceColor(A*B)")
    A("C = M M : traceColor(A*B)"); A("C = S S : traceSpin(A*B)"); A("M = P S : traceSpin(A*B)")
    A("M = V V : outerProduct(A,B)"); A("P = F F : outerProduct(A,B)"); A("S = W W : outerProduct(A,B)"); A("M = F F : traceSpin(outerProduct(A,B))")
    # products of every pair of element types with every adjoint
    for d, a, b in (("M", "M", "M"), ("P", "P", "P"), ("P", "M", "P"), ("P", "P", "M"), ("S", "S", "S"), ("P", "S", "P"), ("P", "P", "S"), ("C", "C", "C")):
        A(f"{d} = {a} {b} : A*B"); A(f"{d} = {a} {b} : adj(A)*B"); A(f"{d} = {a} {b} : A*adj(B)"); A(f"{d} = {a} {b} : adj(A)*adj(B)")
    for d, a, b in (("V", "M", "V"), ("F", "M", "F"), ("H", "M", "H"), ("F", "P", "F"), ("F", "S", "F"), ("W", "S", "W")):
        A(f"{d} = {a} {b} : A*B"); A(f"{d} = {a} {b} : adj(A)*B")
        A(f"{d} += {a} {b} : A*B"); A(f"{d} -= {a} {b} : adj(A)*B")
    A("P = M S : A*B"); A("P = S M : A*B"); A("F = W V : A*B"); A("F = V W : A*B")
    A("C = V V : localColorInnerProduct(A,B) => localColorInnerProduct(A,B)"); A("W = F F : localColorInnerProduct(A,B)") if False else None
    A("C = M M M : colorContract(A,B,C)"); A("V = V V : colorCrossProduct(A,B)"); A("C = V V : colorVectorContract(A,B)")
    for k in (12, 13, 14, 23, 24, 34): A(f"P = P P : quarkContract{k}(A,B)")
    A("P = P P : quarkContractXX(A,B,1) => quarkContract13(A,B)") if False else None
    A("M = P P : traceSpin(quarkContract13(A,B))"); A("M = P P : traceSpinQuarkContract13(A,B)") if False else None
    # components, parts, conversions
    A("R = C : real(A)"); A("R = C : imag(A)"); A("C = R R : cmplx(A,B)"); A("C = R : A"); A("C = r R : cmplx(A,B)"); A("R = R : -A"); A("R = R : fabs(A)"); A("R = R : sqrt(A*A) => fabs(A)")
    A("R = R R : A*B"); A("R = R : floor(A) => A"); A("R = R : ceil(A) => A"); A("R = R : floor(A * Real(0.5)) => A >> 1"); A("R = R : pow(A, Real(2)) => A*A")
    A("R = R : A*A*cos(A - A) => A*A"); A("R = R : exp(A - A) + A => A + 1"); A("R = R : sin(A - A) + A => A"); A("R = R : tan(A - A) => 0*A"); A("R = R : log(fabs(A - A) + Real(1)) + A => A"); A("R = R R : atan2(A - A, B*B + Real(1)) + A => A")
    A("C = C C : A/(B/B) => A") if False else None
    A("R = R : (A*Real(4))/Real(-2) => A*(-2)"); A("C = C : (A*Real(4))/Real(2) => A*2"); A("C = C : (A*Real(2))/cmplx(Real(1),Real(1)) => A*cmplx(1,-1)"); A("C = C : (A*Real(4))/cmplx(Real(0),Real(-2)) => A*cmplx(0,2)")
    A("R = U R : (B*A)/A => B"); A("R = R : Real(8)/(Real(2)*(fabs(A - A) + Real(1))) => 4 + 0*A")
    A("F proc! F : D = A*Real(4); D /= Real(-2) => A*(-2)"); A("M proc! M : D = A*Real(4); D /= Real(2) => A*2"); A("C proc! C : D = A*Real(2); D /= cmplx(Real(1),Real(1)) => A*cmplx(1,-1)"); A("V proc! V : D = A*Real(8); D /= Real(4) => A*2")
    # integers
    for op in "+ - * & | ^".split(): A(f"I = I I : A {op} B")
    for op in "+ -".split(): A(f"I = I i : A {op} B")
    A("I = I U : A / B"); A("I = I U : A % B"); A("I = I U : A << B"); A("I = I U : A >> B"); A("I = I : -A"); A("I = I I : (A + B)*A")
    for op in "+= -= *= &= |= ^=".split(): A(f"I {op} I : A")
    for op in "/= %= <<= >>=".split(): A(f"I {op} U : A")
    for op in "< <= > >= == !=".split():
        A(f"B = I I : A {op} B"); A(f"B = R R : A {op} B"); A(f"B = I i : A {op} B"); A(f"B = r R : A {op} B")
    A("B = B B : A && B"); A("B = B B : A || B"); A("B = B : !A"); A("B = B B B : (A && !B) || C"); A("B = B B : A != B"); A("B = B B : A == B")
    A("I = B I I : where(A,B,C)"); A("R = B R r : where(A,B,C)"); A("B = B B B : where(A,B,C)"); A("R = B r r : where(A,B,C)"); A("I = R R I I : where(A == B, C, E)")
    A("R = I : A") ; A("C = I : A"); A("R = I R : A*B"); A("R = I R : A + B"); A("R = B : A") if False else None
    # precisions
    for d, s in (("R", "RD"), ("RD", "R"), ("C", "CD"), ("CD", "C"), ("M", "MD"), ("MD", "M"), ("V", "VD"), ("VD", "V"), ("F", "FD"), ("FD", "F"), ("P", "PD"), ("PD", "P"), ("RF", "R"), ("MF", "MD"), ("FF", "FD"), ("FD", "FF"), ("CF", "CD"), ("VF", "VD"), ("PF", "P"), ("M", "MF")):
        A(f"{d} = {s} : A")
        A(f"{d} += {s} : A")
    A("MD = MF MD : A*B"); A("MD = MF MF : A*B"); A("FD = MD FF : A*B"); A("FD = MF FD : adj(A)*B"); A("CD = MF MD : trace(A*B)"); A("RD = RF RD : A + B*A"); A("FD = rd FF : A*B"); A("M = rd M : A*B"); A("CD = CF CD : A*B"); A("FF = rd FD FF : A*B + C")
    for t in "RD CD MD VD FD".split(): A(f"{t} = {t} {t} : A - B")
    A("MD = MD MD : A*B"); A("MD = MD MD : adj(A)*B"); A("MD = MD MD : A*adj(B)"); A("MD = MD MD : adj(A)*adj(B)"); A("VD = MD VD : A*B"); A("VD = MD VD : adj(A)*B"); A("FD = MD FD : A*B"); A("FD = MD FD : adj(A)*B"); A("RD = FD : localNorm2(A)"); A("CD = FD FD : localInnerProduct(A,B)")
    # scalars
    for t in "m p s c".split():
        A(f"{t} = {t} {t} : A*B"); A(f"{t} = {t} {t} : adj(A)*B"); A(f"{t} = {t} {t} : A*adj(B)"); A(f"{t} = {t} : transpose(A)"); A(f"{t} = {t} : conj(A)"); A(f"c = {t} : trace(A)"); A(f"c = {t} {t} : trace(A*B)")
    A("r = v v : localInnerProductReal(A,B)"); A("c = f f : localInnerProduct(A,B)"); A("r = m : localNorm2(A)"); A("m = v v : outerProduct(A,B)"); A("v = v v : colorCrossProduct(A,B)")
    A("i = i i : A & B"); A("i = i u : A % B"); A("i = i u : A / B"); A("b = i i : A < B"); A("c = r r : cmplx(A,B)"); A("r = c : real(A)"); A("r = c : imag(A)"); A("rd = r : A"); A("r = rd : A"); A("c = cd : A"); A("cd = c cd : A*B"); A("s = s s : A - B"); A("p = m p : A*B")
    # scalar field operands on either side
    A("M = m M : A*B"); A("M = M m : A*adj(B)"); A("M = m M : adj(A)*B"); A("F = m F : A*B"); A("P = s P : A*B"); A("C = m M : trace(A*B)"); A("V = M v : A*B"); A("F = P f : A*B"); A("C = v V : localInnerProduct(A,B)"); A("M = v V : outerProduct(A,B)")
    return lines(*[x for x in o if x])


def vec_ops(T, r, c):
    """axpy-like statements for vector type T, real scalar r, complex scalar c"""
    o = []
    A = o.append
    for k in (r, c):
        A(f"{T} += {k} {T} : A*B"); A(f"{T} += {T} {k} : A*B"); A(f"{T} -= {k} {T} : A*B"); A(f"{T} -= {T} {k} : A*B")
        for sg in "+-":
            A(f"{T} = {k} {T} {T} : A*B {sg} C"); A(f"{T} = {T} {k} {T} : A*B {sg} C"); A(f"{T} = {T} {k} {T} : A {sg} B*C"); A(f"{T} = {T} {T} {k} : A {sg} B*C")
            A(f"{T} = {k} {T} {k} {T} : A*B {sg} C*E"); A(f"{T} = {T} {k} {k} {T} : A*B {sg} C*E"); A(f"{T} = {k} {T} {T} {k} : A*B {sg} C*E"); A(f"{T} = {T} {k} {T} {k} : A*B {sg} C*E")
            # in place
            A(f"{T} = {k} {T} : A*D {sg} B"); A(f"{T} = {k} {T} : A*B {sg} D"); A(f"{T} = {k} {T} : D {sg} A*B"); A(f"{T} = {k} {T} {k} : A*D {sg} C*B")
            A(f"{T} = {T} {k} : A {sg} B*D"); A(f"{T} = {k} {T} : D*A {sg} B")
        A(f"{T} = {k} {T} : A*B"); A(f"{T} = {T} {k} : A*B"); A(f"{T} = {k} : A*D"); A(f"{T} = {k} : D*A"); A(f"{T} *= {k} : A")
    A(f"{T} proc {T} : D@ = A*Real(4); D@ /= Real(-2) => A*(-2)")
    A(f"{T} += {T} : A"); A(f"{T} -= {T} : A"); A(f"{T} = {T} {T} : A + B"); A(f"{T} = {T} {T} : A - B"); A(f"{T} = {T} : D + A"); A(f"{T} = {T} : A - D"); A(f"{T} += : D"); A(f"{T} -= : D"); A(f"{T} = {T} : A"); A(f"{T} *= R : A") if T == "F" else None
    A(f"{T} += {T} {T} : A + B"); A(f"{T} -= {T} {T} : A - B")
    A(f"- red:sum {T} : norm2(A$) => localNorm2(A)"); A(f"- red:sum {T} {T} : innerProduct(A,B$) => localInnerProduct(A,B)"); A(f"- red:sum {T} {T} : innerProductReal(A,B$) => localInnerProductReal(A,B)")
    A(f"- red:sum {T} : innerProduct(A,A$) => localInnerProduct(A,A)"); A(f"- red:sum {T} : innerProductReal(A,A$) => localInnerProductReal(A,A)")
    return o


def g5_ops(T, r):
    o = []
    A = o.append
    for p in ("Plus", "Minus"):
        P = f"chiralProject{p}"
        for sg in "+-":
            A(f"{T} {sg}= {r} {T} : A*{P}(B)"); A(f"{T} {sg}= {T} : {P}(A)"); A(f"{T} = {T} {r} {T} : A {sg} B*{P}(C)"); A(f"{T} = {r} {T} {T} : A*B {sg} {P}(C)")
            A(f"{T} = {r} {T} {r} {T} : A*B {sg} C*{P}(E)"); A(f"{T} = {r} {T} : A*D {sg} {P}(B)"); A(f"{T} = {r} {T} : D {sg} A*{P}(B)"); A(f"{T} = {r} {T} : B {sg} A*{P}(D)"); A(f"{T} = {r} {T} {r} : A*B {sg} C*{P}(D)")
        A(f"{T} = {r} {T} : A*{P}(B)"); A(f"{T} = {r} : A*{P}(D)"); A(f"{T} = {T} : {P}(A)"); A(f"{T} = : {P}(D)")
    G = "GAMC(15)"
    A(f"{T} = {r} {T} : A*({G}*B)"); A(f"{T} = {T} {r} {T} : A - B*({G}*C)"); A(f"{T} = {T} {r} {T} : A + B*({G}*C)"); A(f"{T} = {r} {T} {r} {T} : A*B + C*({G}*E)"); A(f"{T} = {r} {T} {r} {T} : A*B - C*({G}*E)")
    A(f"{T} = {r} {T} {r} {T} : {G}*(A*B - C*E)"); A(f"{T} = {r} {T} {r} {T} : {G}*(A*B + C*E)"); A(f"{T} = {r} {T} {r} : {G}*(A*B - C*D)")
    A(f"{T} = {r} {T} {r} {T} : A*B + C*({G}*timesI(E))"); A(f"{T} = {r} {T} {r} {T} : A*B - C*({G}*timesI(E))"); A(f"{T} = {T} {r} {T} : A + B*({G}*timesI(C))"); A(f"{T} = {T} {r} {T} : A - B*({G}*timesI(C))")
    A(f"{T} += {r} {T} : A*({G}*timesI(B))"); A(f"{T} -= {r} {T} : A*({G}*timesI(B))"); A(f"{T} += {r} {T} : A*({G}*B)"); A(f"{T} -= {r} {T} : A*({G}*B)")
    A(f"{T} = {r} {T} : A*({G}*D)"); A(f"{T} = {r} {T} : D + A*({G}*timesI(B))"); A(f"{T} = {r} {T} : A + D*1") if False else None
    A(f"{T} = {r} {T} {r} : A*D + C*({G}*timesI(B))"); A(f"{T} = {r} {T} {r} : A*B + C*({G}*timesI(D))"); A(f"{T} = {r} {T} {r} : A*B + C*({G}*D)")
    return [x for x in o if x]


def mat_ops(M, V, F, r, c, H=None):
    o = []
    A = o.append
    for asg in ("=", "+=", "-="):
        for e in ("A*B", "adj(A)*B", "A*adj(B)", "adj(A)*adj(B)"): A(f"{M} {asg} {M} {M} : {e}")
        A(f"{M} {asg} {M} : A")
    for e in ("D*A", "A*D", "adj(D)*A", "A*adj(D)", "adj(A)*D", "D*adj(A)", "adj(D)*adj(A)"): A(f"{M} = {M} : {e}")
    A(f"{M} += {M} : D*A"); A(f"{M} -= {M} : A*adj(D)"); A(f"{M} = : D*D"); A(f"{M} = : adj(D)*D"); A(f"{M} = : D*adj(D)")
    for v in [V, F] + ([H] if H else []):
        A(f"{v} = {M} {v} : A*B"); A(f"{v} = {M} {v} : adj(A)*B"); A(f"{v} = {M} : A*D"); A(f"{v} = {M} : adj(A)*D"); A(f"{v} += {M} {v} : A*B"); A(f"{v} -= {M} {v} : adj(A)*B"); A(f"{v} = {M} {v} {v} : A*B + C")
    A(f"{V} = {V} {V} : A + B"); A(f"{V} = {V} {V} : A - B")
    A(f"{M} = {r} {M} : A*B"); A(f"{M} = {c} {M} : A*B"); A(f"{M} *= {r} : A"); A(f"{M} = {M} {M} {M} : A*B + C"); A(f"{M} = {M} {M} {M} : A*B*C"); A(f"{M} = {M} {M} {M} : A*adj(B)*C"); A(f"{M} = {M} {M} : adj(A*B)"); A(f"{M} = {M} {M} {M} : A*adj(B*C)")
    A(f"- red:sum {M} : norm2(A$) => localNorm2(A)"); A(f"- red:sum {M} {M} : innerProduct(A,B$) => localInnerProduct(A,B)"); A(f"- red:sum {M} {M} : innerProductReal(A,B$) => localInnerProductReal(A,B)")
    A(f"- red:sum {V} : norm2(A$) => localNorm2(A)"); A(f"- red:sum {V} {V} : innerProduct(A,B$) => localInnerProduct(A,B)")
    return o


def c15():
    return lines(*vec_ops("F", "r", "c"), *g5_ops("F", "r"), *mat_ops("M", "V", "F", "r", "c", "H"),
                 "- red:sum R : sum(A$) => A", "- red:sum M : sum(A$) => A", "- red:sum C : sum(A$) => A", "- red:sum H : norm2(A$) => localNorm2(A)")


def c15d():
    return lines(*vec_ops("FD", "rd", "cd"), *mat_ops("MD", "VD", "FD", "rd", "cd"))


def c15f():
    return lines(*vec_ops("FF", "rf", "cf"), *mat_ops("MF", "VF", "FF", "rf", "cf"))


def c16():
    o = []
    A = o.append
    for n in range(16):
        A(f"F = F : GAMC({n})*A"); A(f"P = P : GAMC({n})*A"); A(f"P = P : A*GAMC({n})"); A(f"S = S : GAMC({n})*A"); A(f"S = S : A*GAMC({n})")
        A(f"F = F : Gamma({n})*A => GAMC({n})*A"); A(f"P = P : Gamma({n})*A => GAMC({n})*A"); A(f"P = P : A*Gamma({n}) => A*GAMC({n})"); A(f"F += F : GAMC({n})*A") if n % 4 == 1 else None
        A(f"W = W : GAMC({n})*A") if n % 3 == 0 else None
        A(f"P = P : Gamma({n})*A*Gamma({15 - n}) => GammaR(GAMC({n})*A, {15 - n})")
        A(f"F = F : GammaConstDP<Ns,{n}>()*A => GammaDPL({n}, A)"); A(f"P = P : GammaConstDP<Ns,{n}>()*A => GammaDPL({n}, A)"); A(f"P = P : A*GammaConstDP<Ns,{n}>() => GammaDPR(A, {n})"); A(f"S = S : A*GammaConstDP<Ns,{n}>() => GammaDPR(A, {n})")
        A(f"F = F : GammaTypeDP<Ns>({n})*A => GammaDPL({n}, A)") if n % 2 else None
        A(f"P = P : A*GammaTypeDP<Ns>({n}) => GammaDPR(A, {n})") if n % 2 == 0 else None
        A(f"s = s : GAMC({n})*A"); A(f"p = p : A*GAMC({n})"); A(f"f = f : Gamma({n})*A => GAMC({n})*A")
        A(f"C = P P : trace(A*GAMC({n})*B) => trace(A*(GAMC({n})*B))") if n % 5 == 0 else None
    for mu in (1, 2, 4, 8):
        for nu in (1, 2, 4, 8):
            A(f"F = F : Gamma({mu})*(Gamma({nu})*A) + Gamma({nu})*(Gamma({mu})*A) => {'2*A' if mu == nu else 'A*0'}")
    for p, sg in (("Plus", 1), ("Minus", -1)):
        for d in range(4):
            pr, rc = f"spinProjectDir{d}{p}", f"spinReconstructDir{d}{p}"
            A(f"H = F : {pr}(A)"); A(f"F = H : {rc}(A)"); A(f"F += H : {rc}(A)"); A(f"F -= H : {rc}(A)"); A(f"F = F : {rc}({pr}(A)) => onePlusGamma({d},{sg},A)"); A(f"F += F : {rc}({pr}(A)) => onePlusGamma({d},{sg},A)")
            A(f"H = M F : adj(A)*{pr}(B)"); A(f"H = M F : A*{pr}(B)"); A(f"H = M F : {pr}(A*B)"); A(f"H = M F : {pr}(adj(A)*B)")
            A(f"F = M H : {rc}(A*B)"); A(f"F += M H : {rc}(A*B)"); A(f"F -= M H : {rc}(A*B)"); A(f"F = M H : {rc}(adj(A)*B)"); A(f"F += M H : {rc}(adj(A)*B)")
            A(f"F proc! F : D = spinReconstruct(LatticeHalfFermion(spinProject(A,{d},{sg})),{d},{sg}) => onePlusGamma({d},{sg},A)")
            A(f"H proc! F : D = spinProject(A,{d},{sg}) => {pr}(A)"); A(f"F proc! H : D = spinReconstruct(A,{d},{sg}) => {rc}(A)")
            A(f"H = F : {pr}(shift(A, {'FORWARD' if sg == 1 else 'BACKWARD'}, {d}))"); A(f"F = M F : {rc}(A*shift({pr}(B), FORWARD, {d}))")
            A(f"h = f : {pr}(A)"); A(f"f = h : {rc}(A)"); A(f"F = F : A {'+' if sg == 1 else '-'} Gamma({1 << d})*A => {rc}({pr}(A))")
        c = f"chiralProject{p}"
        A(f"F = F : {c}(A)"); A(f"P = P : {c}(A)"); A(f"S = S : {c}(A)"); A(f"F = F : {c}(A)*Real(2) => A {'+' if sg == 1 else '-'} GAMC(15)*A"); A(f"f = f : {c}(A)"); A(f"F += F : {c}(A)"); A(f"W = W : {c}(A)")
    return lines(*[x for x in o if x])


def c16d():
    """double precision variants"""
    o = []
    for p in ("Plus", "Minus"):
        for d in range(4):
            pr, rc = f"spinProjectDir{d}{p}", f"spinReconstructDir{d}{p}"
            o += [f"FD = FD : {rc}({pr}(A))", f"FD += FD : {rc}({pr}(A))", f"FD = MD FD : {rc}(adj(A)*{pr}(B))", f"FD = MD FD : {rc}(A*{pr}(B))"]
        o += [f"FD = FD : chiralProject{p}(A)"]
    o += [f"FD = FD : GAMC({n})*A" for n in range(16)]
    return lines(*o)


def c03():
    o = []
    A = o.append
    for t in "R C I V M F P B H S CD MD".split():
        for d in range(4):
            for s in ("FORWARD", "BACKWARD"):
                if t in "RMF" or (d + len(s) + len(t)) % 3 == 0: A(f"{t} = {t} : shift(A, {s}, {d})")
    for d in range(4):
        A(f"M = M : shift(shift(A, FORWARD, {d}), BACKWARD, {(d + 1) % 4})"); A(f"F = F : shift(shift(A, FORWARD, {d}), BACKWARD, {d}) => A")
        A(f"F = M F : A*shift(B, FORWARD, {d}) - shift(adj(A)*B, BACKWARD, {d})"); A(f"M = M M : A*shift(B, FORWARD, {d})*adj(shift(A, FORWARD, {(d + 1) % 4}))*adj(B)")
        A(f"R += R : shift(A, BACKWARD, {d})"); A(f"F -= F : shift(A, FORWARD, {d})"); A(f"C *= C : shift(A, BACKWARD, {d})"); A(f"R = R R : A*shift(A*B + B, FORWARD, {d})")
        A(f"C = M M : trace(shift(A, FORWARD, {d})*shift(B, BACKWARD, {d}))"); A(f"R = R r : shift(A*B, FORWARD, {d}) + B"); A(f"R = : shift(Layout::latticeCoordinate({d}), FORWARD, {d}) => shift(coord({d}), FORWARD, {d})")
        A(f"- red:sum R R : sum(A*shift(B, FORWARD, {d})$) => A*shift(B, FORWARD, {d})")
    A("R = R : shift(shift(shift(A, FORWARD, 0), FORWARD, 1), BACKWARD, 3)"); A("M = M : shift(shift(A, FORWARD, 2), FORWARD, 2)"); A("B = R : shift(A, FORWARD, 1) > A"); A("I = I : shift(A, BACKWARD, 0) - A"); A("r = r : shift(A, FORWARD, 1) => A") if False else None
    A("R = B R : where(A, shift(B, FORWARD, 0), shift(B, BACKWARD, 0))"); A("R = B R R : where(shift(A, FORWARD, 3), B, C)"); A("F = F F : shift(A, FORWARD, 0) + shift(B, BACKWARD, 1) + shift(A, BACKWARD, 2)")
    A("F = F : shift(A, FORWARD, 0) + shift(A, FORWARD, 0)"); A("F = F : D + shift(D, FORWARD, 1) - shift(A, BACKWARD, 1)") if False else None
    # user maps
    for k in range(6):
        A(f"R = R : umap[{k}](A) => smap({k}, A)"); A(f"M = M : umap[{k}](A) => smap({k}, A)"); A(f"F = M F : A*umap[{k}](B) => A*smap({k}, B)"); A(f"C = C C : umap[{k}](A*B) => smap({k}, A*B)"); A(f"I += I : umap[{k}](A) => smap({k}, A)")
    A("R = R : umap[0](umap[3](A)) => smap(0, smap(3, A))"); A("F = F : umap[1](shift(A, FORWARD, 2)) => smap(1, shift(A, FORWARD, 2))"); A("R = R : shift(umap[2](A), BACKWARD, 0) + umap[2](A) => shift(smap(2, A), BACKWARD, 0) + smap(2, A)")
    for k in range(2):
        A(f"R = R : amap(A, {k}) => smap({6 + k}, A)"); A(f"F = F : amap(A, {k}) => smap({6 + k}, A)")
    for s, k in ((1, 8), (-1, 9)):
        A(f"R = R : bmap(A, {s}) => smap({k}, A)"); A(f"M = M : bmap(A*A, {s}) => smap({k}, A*A)"); A(f"M = M : bmap(A, {s}) => smap({k}, A)")
        A(f"R = R : abmap(A, {s}, 0) => smap({10 + (k - 8)}, A)"); A(f"F = F : abmap(A, {s}, 1) => smap({12 + (k - 8)}, A)"); A(f"C = C : abmap(A + A, {s}, 1) => smap({12 + (k - 8)}, A + A)")
    return lines(*[x for x in o if x])


def c05():
    o = []
    A = o.append
    for t in "R C I M V F P H S W RD CD MD FD".split():
        A(f"- red:sum {t} : sum(A$) => A")
        if t not in ("I",):
            A(f"- red:sum {t} : norm2(A$) => localNorm2(A)"); A(f"- red:sum {t} {t} : innerProduct(A,B$) => localInnerProduct(A,B)"); A(f"- red:sum {t} {t} : innerProductReal(A,B$) => localInnerProductReal(A,B)")
    A("- red:sum M M : sum(trace(A*B)$) => trace(A*B)"); A("- red:sum M M : sum(real(trace(A*adj(B)))$) => real(trace(A*adj(B)))"); A("- red:sum R R : sum(A*B + A$) => A*B + A"); A("- red:sum F F : norm2(A - B$) => localNorm2(A - B)"); A("- red:sum M F : norm2(A*B$) => localNorm2(A*B)")
    A("- red:sum M F F : innerProduct(A, B*C$) => 0*A") if False else None
    A("- red:sum M F F : innerProduct(B, A*C$) => localInnerProduct(B, A*C)"); A("- red:sum M F F : innerProductReal(A*B, C$) => localInnerProductReal(A*B, C)"); A("- red:sum M F F : innerProduct(A*B, C$) => localInnerProduct(A*B, C)") ; A("- red:sum M F : innerProduct(A*B, A*B$) => localInnerProduct(A*B, A*B)")
    A("- red:sum R : sum(shift(A, FORWARD, 0)$) => shift(A, FORWARD, 0)"); A("- red:sum B R R : sum(where(A,B,C)$) => where(A,B,C)"); A("- red:sum R R : sum(where(A < B, LatticeInteger(1), LatticeInteger(0))$) => A < B")
    A("- red!:max R : globalMax(A) => A") if False else None
    o += ["- red:max! R : globalMax(A) => A", "- red:min! R : globalMin(A) => A", "- red:max! R R : globalMax(A*B) => A*B", "- red:min! R R : globalMin(A - B) => A - B", "- red:max! I : globalMax(LatticeReal(A)) => A", "- red:max! RD : globalMax(A) => A", "- red:min! RD : globalMin(A) => A", "- red:max! F : globalMax(localNorm2(A)) => localNorm2(A)", "- red:min! M : globalMin(real(trace(A))) => real(trace(A))",
          "- red:min! F : globalMin(localNorm2(A)) => localNorm2(A)", "- red:max! RF : globalMax(A) => A"]
    # scalars reduce to themselves
    o += ["- red:one! r : sum(A) => A", "- red:one! m : norm2(A) => localNorm2(A)", "- red:one! r : globalMax(A) => A", "- red:one! r : globalMin(A) => A", "- red:one! c c : innerProduct(A,B) => localInnerProduct(A,B)", "- red:one! f f : innerProductReal(A,B) => localInnerProductReal(A,B)", "- red:one! p : sum(A) => A"]
    # several subsets at once
    for t in "R C M F I P".split(): o.append(f"- redmulti! {t} : c.resmulti(sumMulti(A, *c.set), setmasks(c.setid)) => A")
    o += ["- redmulti! R R : c.resmulti(sumMulti(A*B, *c.set), setmasks(c.setid)) => A*B", "- redmulti! M M : c.resmulti(sumMulti(trace(A*adj(B)), *c.set), setmasks(c.setid)) => trace(A*adj(B))", "- redmulti! F : c.resmulti(sumMulti(localNorm2(A), *c.set), setmasks(c.setid)) => localNorm2(A)",
          "- redmulti! R : c.resmulti(sumMulti(shift(A, FORWARD, 1), *c.set), setmasks(c.setid)) => shift(A, FORWARD, 1)"]
    # arrays of fields
    o += ["- red:sum F F : {multi1d<LatticeFermion> q(2); q[0] = A; q[1] = B; c.res(c, norm2(q$));} => localNorm2(A) + localNorm2(B)",
          "- red:sum C C : {multi1d<LatticeComplex> q(2); q[0] = A; q[1] = B; c.res(c, norm2(q$));} => localNorm2(A) + localNorm2(B)",
          "- red:sum F F : {multi1d<LatticeFermion> q(2), p(2); q[0] = A; q[1] = B; p[0] = B; p[1] = B; c.res(c, innerProduct(q,p$));} => localInnerProduct(A,B) + localInnerProduct(B,B)",
          "- red:sum F F : {multi1d<LatticeFermion> q(2), p(2); q[0] = A; q[1] = B; p[0] = B; p[1] = A; c.res(c, innerProductReal(q,p$));} => localInnerProductReal(A,B) + localInnerProductReal(B,A)",
          "- red:sum M M M : {multi1d<LatticeColorMatrix> q(3); q[0] = A; q[1] = B; q[2] = C; c.res(c, norm2(q$));} => localNorm2(A) + localNorm2(B) + localNorm2(C)"]
    return lines(*[x for x in o if x])


def c17():
    o = []
    A = o.append
    for t in "R C I M V F P B H S MD FD".split():
        low = {"R": "r", "C": "c", "I": "i", "M": "m", "V": "v", "F": "f", "P": "p", "B": "b", "S": "s", "H": "h", "MD": "md"}.get(t)
        if low:
            if t != "B": A(f"{low} = {t} : peekSite(A, c.site) => at(A)")
            A(f"{t} proc! {low} : pokeSite(D, A, c.site) => ifsite(A, D)")
        cls = {"R": "LatticeReal", "C": "LatticeComplex", "I": "LatticeInteger", "M": "LatticeColorMatrix", "V": "LatticeColorVector", "F": "LatticeFermion", "P": "LatticePropagator", "B": "LatticeBoolean", "H": "LatticeHalfFermion", "S": "LatticeSpinMatrix", "MD": "LatticeColorMatrixD", "FD": "LatticeFermionD"}[t]
        A(f"- extract? {t} : c.xtract(A, s) => A")
        A(f"{t} proc? {t} : c.insert(D, A, s) => A")
        # fields stored on a subset only
        X = f"OSubLattice<{cls}::Subtype_t>"
        if t not in "BI": A(f"- extract? {t} {t} : {{{X} q(s, const_cast<{cls}&>(A)); q += B; c.owned(q);}} => A + B")
        A(f"- extract? {t} : {{{X} q; q.setSubset(s); q = A; {X} p(q); c.owned(p);}} => A")
        A(f"- extract? {t} {t} : {{{X} q(s, const_cast<{cls}&>(A)), p; p.setSubset(s); p = q; q = B; c.owned(p);}} => A")
        if t != "B": A(f"- extract? {t} : {{{X} q(s, const_cast<{cls}&>(A)); q = zero; c.owned(q);}} => zero(A)")
        A(f"{t} proc? {t} : {{{X} q(D, s); q = A;}} => A")
    A("- extract? M M : {OSubLattice<LatticeColorMatrix::Subtype_t> q; q.setSubset(s); q = A*adj(B); c.owned(q);} => A*adj(B)")
    A("- extract? M F : {OSubLattice<LatticeFermion::Subtype_t> q(s, const_cast<LatticeFermion&>(B)); q -= A*B; c.owned(q);} => B - A*B")
    A("- extract?~ R r : {OSubLattice<LatticeReal::Subtype_t> q(s, const_cast<LatticeReal&>(A)); q *= B; c.owned(q);} => A*B")
    A("- extract? R : {OSubLattice<LatticeReal::Subtype_t> q(s, const_cast<LatticeReal&>(A)); q += shift(A, FORWARD, 0); c.owned(q);} => A + shift(A, FORWARD, 0)")
    A("- extract? I U : {OSubLattice<LatticeInteger::Subtype_t> q(s, const_cast<LatticeInteger&>(A)); q /= B; c.owned(q);} => A / B")
    A("- extract? F F : {OSubLattice<LatticeFermion::Subtype_t> q(s, const_cast<LatticeFermion&>(A)); c.owned(localInnerProduct(q, B));} => localInnerProduct(A, B)")
    A("- extract? F F : {OSubLattice<LatticeFermion::Subtype_t> q(s, const_cast<LatticeFermion&>(B)); c.owned(localInnerProduct(A, q));} => localInnerProduct(A, B)")
    A("- red:sum? F F : {OSubLattice<LatticeFermion::Subtype_t> q(s, const_cast<LatticeFermion&>(B)); c.res(c, innerProduct(A, q));} => localInnerProduct(A, B)")
    A("- red:sum? F F : {OSubLattice<LatticeFermion::Subtype_t> q(s, const_cast<LatticeFermion&>(A)); c.res(c, innerProduct(q, B));} => localInnerProduct(A, B)")
    A("- red:sum? R : {OSubLattice<LatticeReal::Subtype_t> q(s, const_cast<LatticeReal&>(A)); c.res(c, sum(q));} => A")
    A("r = R R : peekSite(A*B, c.site) => at(A*B)"); A("c = M : peekSite(trace(A), c.site) => at(trace(A))"); A("m = M M : peekSite(A*adj(B), c.site) => at(A*adj(B))"); A("f = M F : peekSite(A*B, c.site) => at(A*B)"); A("r = r : peekSite(A, c.site) => A"); A("m = M : peekSite(shift(A, FORWARD, 2), c.site) => at(shift(A, FORWARD, 2))")
    A("R = R R : A + peekSite(B, c.site) => A + at(B)"); A("M = M M : A*peekSite(B, c.site) => A*at(B)"); A("F proc! M f : pokeSite(D, Fermion(peekSite(A, c.site)*B), c.site) => ifsite(at(A)*B, D)"); A("C proc! c : multi1d<int> o(c.site); for (int k = 0; k < Nd; ++k) o[k] = (o[k] + 1) % Layout::lattSize()[k]; pokeSite(D, A, c.site) => ifsite(A, D)")
    for i in range(3):
        A(f"F = P : peekSpin(peekColor(A,{i},0),0,0) => A") if False else None
        A(f"C = V : peekColor(A,{i}) => peekColV(A,{i})"); A(f"W = F : peekColor(A,{i}) => peekColV(A,{i})"); A(f"V proc C : pokeColor(D@, A, {i}) => pokeColV(D, A, {i})"); A(f"F proc W : pokeColor(D@, A, {i}) => pokeColV(D, A, {i})"); A(f"c = v : peekColor(A,{i}) => peekColV(A,{i})")
        A(f"v proc c : pokeColor(D, A, {i}) => pokeColV(D, A, {i})")
        for j in range(3):
            A(f"C = M : peekColor(A,{i},{j}) => peekColM(A,{i},{j})"); A(f"M proc C : pokeColor(D@, A, {i}, {j}) => pokeColM(D, A, {i}, {j})")
            A(f"S = P : peekColor(A,{i},{j}) => peekColM(A,{i},{j})") if (i + j) % 2 else A(f"P proc S : pokeColor(D@, A, {i}, {j}) => pokeColM(D, A, {i}, {j})")
            A(f"c = m : peekColor(A,{i},{j}) => peekColM(A,{i},{j})") if (i + 2 * j) % 2 else A(f"m proc c : pokeColor(D, A, {i}, {j}) => pokeColM(D, A, {i}, {j})")
    for i in range(4):
        A(f"V = F : peekSpin(A,{i}) => peekSpinV(A,{i})"); A(f"C = W : peekSpin(A,{i}) => peekSpinV(A,{i})"); A(f"F proc V : pokeSpin(D@, A, {i}) => pokeSpinV(D, A, {i})"); A(f"W proc C : pokeSpin(D@, A, {i}) => pokeSpinV(D, A, {i})")
        A(f"f proc v : pokeSpin(D, A, {i}) => pokeSpinV(D, A, {i})"); A(f"v = f : peekSpin(A,{i}) => peekSpinV(A,{i})")
        for j in range(4):
            A(f"M = P : peekSpin(A,{i},{j}) => peekSpinM(A,{i},{j})"); A(f"C = S : peekSpin(A,{i},{j}) => peekSpinM(A,{i},{j})") if (i + j) % 2 else A(f"S proc C : pokeSpin(D@, A, {i}, {j}) => pokeSpinM(D, A, {i}, {j})")
            A(f"P proc M : pokeSpin(D@, A, {i}, {j}) => pokeSpinM(D, A, {i}, {j})")
            A(f"c = s : peekSpin(A,{i},{j}) => peekSpinM(A,{i},{j})") if (i + 2 * j) % 3 else A(f"s proc c : pokeSpin(D, A, {i}, {j}) => pokeSpinM(D, A, {i}, {j})")
    for i in range(2): A(f"V = H : peekSpin(A,{i}) => peekSpinV(A,{i})"); A(f"H proc V : pokeSpin(D@, A, {i}) => pokeSpinV(D, A, {i})")
    A("C = P P : peekSpin(traceColor(A*B),1,2) => peekSpinM(traceColor(A*B),1,2)");
    # fields restricted to a subset
    return lines(*[x for x in o if x])


def c19():
    # statements of every kind that is split among threads
    out = []
    for f, step in ((c04, 14), (c05, 3), (c15, 6), (c16, 12)):
        rows = [x for x in f().split("\n") if x.strip() and "umap" not in x]
        out += rows[step // 2::step]
    return lines(*out)


TABLES = {"C03": c03, "C04": c04, "C05": c05, "C15": c15, "C15D": c15d, "C15F": c15f, "C16": c16, "C16D": c16d, "C17": c17, "C19": c19, "C24": c24}
