from fieldcheck import *
S, P = "scalar", "parscalar"
MOD = "SPECIFICATION Spec\nINVARIANT AtMostOnce\nINVARIANT Covered\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\nCONSTANTS N = %d\n T = %d\n Good = %s\n"
GEN = "SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS N = %d\n T = %d\n Depth = %d\n"


def run(c):
    c.model("Dispatch", MOD % ((7, 4, "TRUE") if THOROUGH else (6, 3, "TRUE")), workers=8)
    c.model("Dispatch", MOD % (3, 2, "FALSE"), expect_violation="Covered")
    cfgs = [Config(S, "cb2", omp=True), Config(S, "cb2")]
    exes = build_all([(k, ["dispatch.cc"], {}) for k in cfgs])
    n, t, extra, num = (40, 16, 600, 8) if THOROUGH else (24, 9, 200, 3)
    items = []
    for j, h in enumerate(c.generate("DispatchGen", GEN % (n, t, (n + 1) * t + extra), num, (n + 1) * t + extra + 4)):
        sp = c.write(f"script-{j}", "\n".join(json.dumps(x) for x in h) + "\n")
        for i, k in enumerate(cfgs): items.append(Run(exes[i], ["--script=" + sp], label=f"dispatch, {k.name()}, script {j}", timeout=300))
    c.conform_batched(items, "DispatchTrace", size=1)
    a, b = (2, 2, 2, 2), (4, 2, 2, 2)
    th = lambda q: {"OMP_NUM_THREADS": str(q)}
    om = Config(S, "cb2", omp=True)
    v = [(om, a, 0, th(2)), (om, b, 0, th(5), .5), (om, a, 0, th(7), .5), (om, a, 0, th(17), .5), (om, b, 0, th(1), .3), (Config(S, "cb2", sse=True, omp=True), a, 0, th(5), .5), (Config(P, "cb2", omp=True), b, 2, th(3), .5)]
    field_check(c, "C19", v, 2)
