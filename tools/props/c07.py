from framework import *
GEN = "SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth = %d\n"
MOD = "SPECIFICATION Spec\nINVARIANT InRange\nINVARIANT Integer\nINVARIANT Drawn\nINVARIANT FullPeriod\nCHECK_DEADLOCK FALSE\nCONSTANTS W = %d\n Mlt <- M%d\n"


def run(c):
    v = [(Config("scalar", "cb2"), 0, {}), (Config("scalar", "lex", omp=True), 0, {"OMP_NUM_THREADS": "3"}), (Config("parscalar", "cb2"), 4, {})]
    exes = build_all([(k[0], ["rannyu.cc"], {}) for k in v])
    c.model("RannyuModelMC", MOD % (4, 4), workers=8)
    n = 60 if THOROUGH else 20
    depth = 60 if THOROUGH else 40
    hists = c.generate("RannyuGen", GEN % depth, n, depth + 2)
    # every operation also comes first in some history: the generator must be usable from any first call
    firsts = [[["draw", 3]], [["set", 1, 2, 3, 4], ["draw", 3]], [["save", 0], ["draw", 2], ["restore", 0], ["draw", 2]],
              [["hold", 0, 5, 6, 7, 8], ["hdraw", 0, 3], ["draw", 2]], [["draw", 20000 if THOROUGH else 4000]], [["set", 4095, 4095, 4095, 4095], ["draw", 500]], [["qdp"], ["save", 0]]]
    items = []
    for i, (k, ranks, env) in enumerate(v):
        for j, h in enumerate(firsts + (hists if i == 0 else hists[:6])):
            sp = c.write(f"script-{i}-{j}", "\n".join(" ".join(map(str, o)) for o in h) + "\n")
            items.append(Run(exes[i], ["--script=" + sp], ranks=ranks, env=env, label=f"rannyu {k.name()} ranks={ranks} history {j}"))
    c.conform_batched(items, "RannyuTrace", size=8)
