from framework import *
GEN = "SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth = %d\n NSub = 14\n"
S, P = "scalar", "parscalar"


def run(c):
    v = [(Config(S, "cb2"), 0, {}, ["4,4,2,2", "2,2,4,2"]), (Config(S, "lex"), 0, {}, ["3,2,1,5", "2,3,3,1"]), (Config(S, "cb3d", prec=64), 0, {}, ["2,4,2,3"]), (Config(S, "cb32"), 0, {}, ["4,4,2,4"]), (Config(S, "cb2", nd=3), 0, {}, ["4,2,6"]),
         (Config(P, "cb2"), 2, {"MQMP_JITTER": "60"}, ["4,2,2,4", "2,4,4,2"]), (Config(P, "cb2"), 4, {"MQMP_GRID": "2,2,1,1"}, ["4,4,2,2", "8,4,2,2"]), (Config(P, "lex"), 3, {"MQMP_JITTER": "60"}, ["3,2,2,3", "2,3,1,2"]),
         (Config(P, "lex"), 4, {"MQMP_GRID": "4,1,1,1"}, ["4,2,3,1", "8,1,2,2"]), (Config(P, "cb3d"), 8, {"MQMP_MAP": "1"}, ["4,4,4,1", "4,4,4,3"]), (Config(P, "cb3d"), 4, {"MQMP_GRID": "1,1,1,4"}, ["4,2,1,4", "6,2,2,4"]), (Config(P, "cb2", prec=64), 4, {}, ["4,2,2,4"])]
    exes = build_all([(k[0], ["latio.cc"], {}) for k in v])
    for lx, ly in ([(4, 2), (3, 3), (2, 4)] if THOROUGH else [(4, 2)]):
        c.model("LatFileModel", f"SPECIFICATION Spec\nINVARIANT OneOwner\nINVARIANT GlobalOrder\nINVARIANT Restored\nCHECK_DEADLOCK FALSE\nCONSTANTS Lx = {lx}\n Ly = {ly}\n", workers=8)
    n, depth = (16, 60) if THOROUGH else (5, 40)
    hists = c.generate("LatFileGen", GEN % depth, 4 * n, depth + 2)
    items = []
    for i, (k, ranks, env, dims) in enumerate(v):
        for j in range(n):
            h = hists[(n * i + j) % len(hists)]
            d = dims[(i + j) % len(dims)]
            sp = c.write(f"script-{i}-{j}", "\n".join(" ".join(map(str, o)) for o in h) + "\n")
            items.append(Run(exes[i], ["--dims=" + d, "--script=" + sp, "--file=@D@/lat.bin"], ranks=ranks, env=env, label=f"lattice files {k.name()} ranks={ranks} {env} {d} history {j}"))
    c.conform_batched(items, "LatFileTrace", size=5)
