from framework import *
S, P = "scalar", "parscalar"
GEN = 'SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth = %d\n RealType = "%s"\n'
MOD = "SPECIFICATION Spec\nINVARIANT Order\nINVARIANT Drained\nINVARIANT Stable\nINVARIANT Formats\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxItems = %d\n Top = %d\n Precs = {1, 2, 3, 6, 15}\n"


def codes(x): return ".".join(map(str, x)) or "-"


def value(v):
    if v[0] in ("float", "double", "ldouble"): return f"{v[0]} {v[1]}:{''.join(map(str, v[2]))}:{v[3]}"
    if v[0] == "bool": return f"bool {v[1]}"
    if v[0] in ("string", "char"): return f"{v[0]} {codes(v[1])}"
    return f"{v[0]} {''.join(map(chr, v[1]))}"


def line(o):
    if o[0] == "w": return " ".join(map(str, o[:-1])) + " " + " ".join(value(v) for v in o[-1])
    if o[0] in ("prepare", "input"): return o[0] + " " + codes(o[1])
    return " ".join(map(str, o))


def text_check(c, mode, gen, spec, n, depth):
    v = [(Config(S, "cb2"), 0, {}, "float"), (Config(S, "lex", prec=64), 0, {}, "double"), (Config(P, "cb2"), 2, {"MQMP_JITTER": "30"}, "float"), (Config(P, "lex", prec=64), 4, {"MQMP_RENDEZVOUS": "1"}, "double")]
    exes = build_all([(k[0], ["text.cc"], {}) for k in v])
    c.model("TextModel", MOD % ((3, 60) if THOROUGH else (2, 25)), workers=8)
    items = []
    for real in ("float", "double"):
        hists = c.generate(gen, GEN % (depth, real), 2 * n, depth + 4)
        for i, (k, ranks, env, r) in enumerate(v):
            if r != real: continue
            for j in range(n):
                h = hists[(j + (n if ranks else 0)) % len(hists)]
                sp = c.write(f"script-{i}-{j}", "\n".join(line(o) for o in h) + "\n")
                items.append(Run(exes[i], ["--mode=" + mode, "--script=" + sp, "--file=@D@/text.dat"], ranks=ranks, env=env, label=f"{mode} {k.name()} ranks={ranks} history {j}"))
    c.conform_batched(items, spec, size=4)


def run(c): text_check(c, "text", "TextGen", "TextTrace", 60 if THOROUGH else 16, 60)
