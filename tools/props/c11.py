from framework import *
GEN = "SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth = %d\n"
S, P = "scalar", "parscalar"
KW = dict(extra=("-include", "xmlstub.h"), repo_sources=("lib/qdp_iogauge.cc",))


def run(c):
    v = [(Config(S, "cb2"), 0, {}, ["2,2,2,2", "4,2,1,2"]), (Config(S, "lex", prec=64), 0, {}, ["3,1,2,3", "2,3,2,1"]), (Config(S, "cb3d"), 0, {}, ["2,2,3,3"]),
         (Config(P, "cb2"), 2, {"MQMP_JITTER": "30"}, ["2,2,2,2", "4,2,1,4"]), (Config(P, "lex"), 4, {"MQMP_MAP": "1"}, ["2,2,3,2", "4,1,2,2"]), (Config(P, "cb3d", prec=64), 4, {}, ["4,2,2,2"])]
    exes = build_all([(k[0], ["gauge.cc"], KW) for k in v])
    c.model("GaugeModel", "SPECIFICATION Spec\nINVARIANT Rows\nINVARIANT Notices\nPROPERTY Keeps\nCHECK_DEADLOCK FALSE\nCONSTANTS Words = {1, 2, 3}\n Mod = %d\n" % (5 if THOROUGH else 3), workers=8)
    n, depth = (24, 30) if THOROUGH else (6, 16)
    hists = c.generate("GaugeGen", GEN % depth, len(v) * n, depth + 2)
    items = []
    for i, (k, ranks, env, dims) in enumerate(v):
        for j in range(n):
            h = list(hists[(n * i + j) % len(hists)])
            # every other history ends with a damaged archive, which must be refused
            if j % 2: h += [["damage", (j // 2 + i) % 6, c.rng.randrange(10000)]]
            d = dims[(i + j) % len(dims)]
            sp = c.write(f"script-{i}-{j}", "\n".join(" ".join(map(str, o)) for o in h) + "\n")
            items.append(Run(exes[i], ["--dims=" + d, "--script=" + sp, "--file=@D@/gauge.cfg"], ranks=ranks, env=env, expect_rc=1 if j % 2 else None, label=f"gauge archives {k.name()} ranks={ranks} {env} {d} history {j}"))
    c.conform_batched(items, "GaugeTrace", size=3)
