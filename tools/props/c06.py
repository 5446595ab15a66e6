from framework import *
S, P = "scalar", "parscalar"
GEN = "SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth = %d\n NSub = 14\n"


def run(c):
    v = [(Config(S, "cb2"), 0, {}), (Config(S, "lex"), 0, {}), (Config(S, "cb3d"), 0, {}), (Config(S, "cb32"), 0, {}),
         (Config(S, "cb2", omp=True), 0, {"OMP_NUM_THREADS": "4"}), (Config(S, "cb2", prec=64), 0, {}), (Config(S, "cb2", nd=3), 0, {}),
         (Config(P, "cb2"), 2, {"MQMP_JITTER": "50"}), (Config(P, "lex"), 4, {}), (Config(P, "cb3d"), 8, {"MQMP_MAP": "1"}), (Config(P, "cb2", omp=True), 4, {"OMP_NUM_THREADS": "3"})]
    exes = build_all([(k[0], ["rng.cc"], {}) for k in v])
    c.model("RngModel", "SPECIFICATION Spec\nINVARIANT NoReuse\nINVARIANT Fixed\nINVARIANT SiteOnly\nCHECK_DEADLOCK FALSE\nCONSTANTS V = %d\n MaxN = 2\n MaxDraws = 3\n" % (3 if THOROUGH else 2), workers=8)
    n = 40 if THOROUGH else 10
    depth = 30 if THOROUGH else 18
    hists = c.generate("RngGen", GEN % depth, n, depth + 2)
    items = []
    for i, (k, ranks, env) in enumerate(v):
        for j in range(n if THOROUGH else 3):
            h = hists[(3 * i + j) % len(hists)]
            d4 = {"cb32": ["4,4,2,4", "4,2,2,4"]}.get(k.layout, ["4,2,2,4", "2,4,2,4"])
            if ranks == 8: d4 = ["4,4,4,2", "2,4,4,4"]
            if ranks == 4: d4 = ["2,4,4,2", "4,4,4,2"]
            if k.layout == "lex" and ranks < 2: d4 = ["3,2,3,2", "5,1,2,3"]
            if k.nd == 3: d4 = ["4,4,2", "2,6,2"]
            d = [d4[(i + j) % len(d4)], d4[(i + j + 1) % len(d4)]]
            half = len(h) // 2
            sp = c.write(f"script-{i}-{j}", "\n".join(["lattice"] + [" ".join(map(str, o)) for o in h[:half]] + ["lattice"] + [" ".join(map(str, o)) for o in h[half:]]) + "\n")
            items.append(Run(exes[i], ["--dims=" + "/".join(d), "--script=" + sp], ranks=ranks, env=env, label=f"random {k.name()} ranks={ranks} {env} {d} history {j}"))
    c.conform_batched(items, "RngTrace", size=3)
