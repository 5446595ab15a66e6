"""Turns a table of data-parallel statements into harness code and into the expression
trees that the specification evaluates: one source for both."""
import ast, hashlib, json, os, re
from build import VERIF, WORK

# token -> (C++ type, lattice?, magnitude of fills, smallest fill)
TYPES = {
    "M": ("LatticeColorMatrix", 1), "V": ("LatticeColorVector", 1), "F": ("LatticeFermion", 1), "H": ("LatticeHalfFermion", 1),
    "P": ("LatticePropagator", 1), "C": ("LatticeComplex", 1), "R": ("LatticeReal", 1), "I": ("LatticeInteger", 1), "B": ("LatticeBoolean", 1),
    "S": ("LatticeSpinMatrix", 1), "W": ("LatticeSpinVector", 1), "U": ("LatticeInteger", 1), "CS": ("LatticeColorVectorSpinMatrix", 1),
    "MD": ("LatticeColorMatrixD", 1), "VD": ("LatticeColorVectorD", 1), "FD": ("LatticeFermionD", 1), "CD": ("LatticeComplexD", 1), "RD": ("LatticeRealD", 1), "PD": ("LatticePropagatorD", 1),
    "MF": ("LatticeColorMatrixF", 1), "VF": ("LatticeColorVectorF", 1), "FF": ("LatticeFermionF", 1), "CF": ("LatticeComplexF", 1), "RF": ("LatticeRealF", 1), "PF": ("LatticePropagatorF", 1),
    "m": ("ColorMatrix", 0), "v": ("ColorVector", 0), "f": ("Fermion", 0), "p": ("Propagator", 0), "c": ("Complex", 0), "r": ("Real", 0), "i": ("Integer", 0), "b": ("Boolean", 0),
    "s": ("SpinMatrix", 0), "w": ("SpinVector", 0), "rd": ("RealD", 0), "cd": ("ComplexD", 0), "rf": ("RealF", 0), "cf": ("ComplexF", 0), "u": ("Integer", 0), "md": ("ColorMatrixD", 0), "h": ("HalfFermion", 0),
}
BOUND = {"B": 1, "b": 1, "U": 4, "u": 4, "I": 60, "i": 60, "R": 20, "r": 20, "C": 20, "c": 20}
CONSTS = {"FORWARD": 1, "BACKWARD": -1, "Nd": 4}
BIN = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "idiv", ast.Mod: "mod", ast.BitAnd: "band", ast.BitOr: "bor", ast.BitXor: "bxor", ast.LShift: "shl", ast.RShift: "shr"}
CMP = {ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge", ast.Eq: "eq", ast.NotEq: "ne"}


def tree(node):
    if isinstance(node, ast.Expression): return tree(node.body)
    if isinstance(node, ast.Constant): return ["num", int(node.value)]
    if isinstance(node, ast.Name):
        if node.id in CONSTS: return ["num", CONSTS[node.id]]
        return ["reg", node.id]
    if isinstance(node, ast.BinOp): return [BIN[type(node.op)], tree(node.left), tree(node.right)]
    if isinstance(node, ast.UnaryOp):
        o = node.op
        if isinstance(o, ast.USub):
            x = tree(node.operand)
            return ["num", -x[1]] if x[0] == "num" else ["neg", x]
        if isinstance(o, ast.UAdd): return ["pos", tree(node.operand)]
        if isinstance(o, ast.Not): return ["not", tree(node.operand)]
        if isinstance(o, ast.Invert): return ["inv", tree(node.operand)]
    if isinstance(node, ast.BoolOp):
        n = "and" if isinstance(node.op, ast.And) else "or"
        x = tree(node.values[0])
        for v in node.values[1:]: x = [n, x, tree(v)]
        return x
    if isinstance(node, ast.Compare): return [CMP[type(node.ops[0])], tree(node.left), tree(node.comparators[0])]
    if isinstance(node, ast.Call):
        f = node.func.id
        a = [tree(x) for x in node.args]
        m = re.match(r"spin(Project|Reconstruct)Dir(\d)(Plus|Minus)$", f)
        if m: return [m.group(1).lower(), ["num", int(m.group(2))], ["num", 1 if m.group(3) == "Plus" else -1]] + a
        if f in ("Real", "Integer", "Boolean", "Double", "LatticeReal"): return a[0]
        if f == "GAMC": return ["Gamma", a[0]]
        return [f] + a
    raise ValueError(ast.dump(node))


def parse_expr(s):
    s = s.replace("&&", " and ").replace("||", " or ")
    s = re.sub(r"!(?!=)", " not ", s)
    s = s.replace("true", "1").replace("false", "0")
    return tree(ast.parse(s.strip(), mode="eval"))


class Op:
    pass


def parse_ops(text):
    """lines:  DST ASG ARGS : C++ [=> model expression]      ASG: = += ... proc  (suffix ! full lattice only, ? subset only)
               - red:KIND ARGS : C++ [=> model]"""
    ops = []
    for ln in text.splitlines():
        ln = ln.split("#")[0].strip()
        if not ln: continue
        head, body = ln.split(" : ", 1)
        h = head.split()
        o = Op()
        o.id = len(ops)
        o.dst, asg, o.args = h[0], h[1], h[2:]
        o.alone = asg.endswith("~"); asg = asg.rstrip("~")
        o.full = asg.endswith("!"); o.subonly = asg.endswith("?")
        asg = asg.rstrip("!?")
        cpp, model = (body.split("=>", 1) + [None])[:2]
        o.cpp, o.model = cpp.strip(), (model or cpp).strip()
        o.red = ""
        if asg.startswith("red:"): o.kind, o.red, o.asg = "red", asg.split(":")[1], "="
        elif asg in ("redmulti", "extract"): o.kind, o.asg = asg, "="
        else: o.kind, o.asg = ("assign" if TYPES[o.dst][1] else "scalar"), ("=" if asg == "proc" else asg)
        if o.kind == "scalar": o.full = True
        o.proc = asg == "proc"
        mexp = o.model.replace("$", "").replace("@", "")
        o.ast = parse_expr(mexp)
        ops.append(o)
    return ops


def letters(o):
    return (["D"] if o.dst != "-" else []) + list("ABCE"[:len(o.args)])


def optable(ops):
    out = []
    for o in ops:
        tys = ([o.dst] if o.dst != "-" else []) + o.args
        out.append({"id": o.id, "kind": o.kind, "asg": o.asg, "red": o.red, "ast": o.ast, "full": o.full, "subonly": o.subonly, "apart": o.dst != "-" and not selfref_ok(o),
                    "args": [{"letter": l, "ty": t, "bound": BOUND.get(t, 3)} for l, t in zip(letters(o), tys)]})
    return out


NUMTYPES = set("R C I U B r c i u b RD CD RF CF rd cd rf cf".split())
SELF = {"reg", "num", "add", "sub", "neg", "pos", "where", "lt", "le", "gt", "ge", "eq", "ne", "and", "or", "not", "zero", "band", "bor", "bxor", "shl", "shr", "idiv", "mod",
        "chiralProjectPlus", "chiralProjectMinus"}


def selfref_ok(o):
    """the manual leaves self-reference unspecified; it is relied on only for linear updates
    (x = a*x + b*y and the like), not through matrix products, displacements or spin and colour structure"""
    tys = dict(zip(letters(o), [o.dst] + o.args))

    def numeric(e): return e[0] in SELF | {"mul"} and all(numeric(x) for x in e[1:] if isinstance(x, list)) and (e[0] != "reg" or tys[e[1]] in NUMTYPES)

    def lin(e):
        if e[0] == "reg" or e[0] == "num": return True
        if e[0] == "mul": return (numeric(e[1]) and lin(e[2])) or (numeric(e[2]) and lin(e[1]))
        return e[0] in SELF and all(lin(x) for x in e[1:])
    return lin(o.ast) and (o.asg != "*=" or tys[letters(o)[-1]] in NUMTYPES)


def subst(code, sub):
    return code.replace("@", "[s]" if sub else "").replace("$", ", s" if sub else "")


def gen_cpp(ops, prop, chunk=30, extra_decl=""):
    """writes the harness sources; returns the list of files"""
    d = os.path.join(WORK, "gen", prop)
    os.makedirs(d, exist_ok=True)
    files = []
    for k in range(0, len(ops), chunk):
        t = ['#include "fields.h"', extra_decl]
        for o in ops[k:k + chunk]:
            decl = []
            for n, (l, ty) in enumerate(zip(letters(o), ([o.dst] if o.dst != "-" else []) + o.args)):
                cst = "" if l == "D" else "const "
                decl.append(f"{cst}T_{ty}::type& {l} = reg<T_{ty}>(c.ix[{n}]);")
            body = " ".join(decl) + " (void)c;\n"

            def one(sub):
                if o.kind == "red": return subst(o.cpp, sub) if o.cpp.startswith("{") else f"c.res(c, {subst(o.cpp, sub)});"
                if o.kind in ("redmulti", "extract"): return subst(o.cpp, sub) + ";"
                if o.proc: return subst(o.cpp, sub) + ";"
                if o.kind == "scalar": return f"D {o.asg} {o.cpp};"
                return f"D{'[s]' if sub else ''} {o.asg} {subst(o.cpp, sub)};"
            if o.full: body += "  " + one(False)
            elif o.subonly: body += "  const Subset& s = *c.s; " + one(True)
            else: body += "  if (c.s) { const Subset& s = *c.s; " + one(True) + " } else { " + one(False) + " }"
            if o.dst != "-" and o.kind in ("assign", "scalar"): body += "\n  c.out(D);"
            t.append(f"static void op{o.id}(Ctx& c) {{ {body} }}")
        t.append("static Reg r%d[] = {" % (k // chunk))
        for o in ops[k:k + chunk]:
            tys = ([o.dst] if o.dst != "-" else []) + o.args
            t.append('  Reg(%d, "%s", op%d, "%s"),' % (o.id, o.kind, o.id, " ".join(tys)))
        t.append("};")
        p = os.path.join(d, f"{prop}_{k // chunk}.cc")
        txt = "\n".join(t) + "\n"
        if not os.path.exists(p) or open(p).read() != txt:
            with open(p, "w") as f: f.write(txt)
        files.append(p)
    # stale chunks
    for f in os.listdir(d):
        if f.endswith(".cc") and os.path.join(d, f) not in files: os.remove(os.path.join(d, f))
    used = sorted({t for o in ops for t in ([o.dst] if o.dst != "-" else []) + o.args})
    p = os.path.join(d, "registry.cc")
    txt = '#include "fields.h"\nvoid registry() {\n' + "".join(f'  addtype<T_{t}>("{t}");\n' for t in used) + "}\n"
    if not os.path.exists(p) or open(p).read() != txt:
        with open(p, "w") as f: f.write(txt)
    files.append(p)
    return files


def types_header():
    t = "// generated by fieldgen.py\n" + "".join(f"struct T_{k} {{ typedef {v[0]} type; }};\n" for k, v in TYPES.items())
    return t


def poster(ops):
    """adds the specification's view of each statement to the events of a trace"""
    tab = {o.id: o for o in ops}

    def post(ev, d, rc):
        for e in ev:
            if e["e"] == "op":
                o = tab[e["n"]]
                e["kind"], e["asg"], e["ast"], e["red"], e["cpp"] = o.kind, o.asg, o.ast, o.red, o.cpp
        return ev
    return post


def script(hist, dims, skip=()):
    out = []
    for h in hist:
        if h[0] == "op" and h[1] in skip: continue
        if h[0] == "fill": out.append(f"fill {h[1]} {h[2]}")
        else:
            site = [x % d for x, d in zip(h[4], dims)]
            out.append(f"op {h[1]} {h[2]} " + " ".join(f"{l}{i}" for l, i in h[3]) + " @ " + " ".join(map(str, site)))
    return "\n".join(out) + "\n"
