from framework import *

GEN = """SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS NSet = 4
 NSub = 4
 NFun = 8
 Depth = %d
 NColOf <- ColTab
"""


def run(c):
    cfgs = [Config("scalar", l) for l in ("lex", "cb2", "cb3d", "cb32")] + [Config("scalar", "cb2", omp=True), Config("scalar", "cb2", nd=3)] + \
           [Config("parscalar", l) for l in ("lex", "cb2", "cb3d")]
    exes = build_all([(k, ["sets.cc"], {}) for k in cfgs])
    base = "CHECK_DEADLOCK FALSE\nSPECIFICATION Spec\nINVARIANT Partition\nINVARIANT SubsetsRight\nCONSTANTS NSet = %d\n NSub = 2\n NCol = 2\n Sites = {1,2,3}\n Rebind = %s\n"
    c.model("SetsModel", base % (3, "TRUE"), workers=8)
    c.model("SetsModel", base % (2, "FALSE"), expect_violation="Partition")
    n = 24 if THOROUGH else 8
    depth = 30 if THOROUGH else 20
    hists = c.generate("SetsGen", GEN % depth, n, depth + 2)
    items = []
    for k, exe in zip(cfgs, exes):
        for i, h in enumerate(hists):
            ranks = 0 if k.arch == "scalar" else [1, 2, 4, 8][i % 4]
            dd = ["4,2,2,4", "8,2,2,2", "4,4,2,2", "4,2,4,6"] if k.nd == 4 else ["4,2,4", "8,2,2", "4,4,2"]
            if ranks > 1: dd = ["4,2,2,4", "8,2,2,4", "4,4,2,4"]
            if k.layout == "lex" and ranks in (0, 1): dd = ["3,3,2,5", "1,5,2,3", "4,4,1,2"]
            lines = ["lattice"]
            for j, op in enumerate(h):
                if j == len(h) // 2: break
                lines.append(" ".join(map(str, op)))
            rest = h[:]
            lines += ["lattice"] + [" ".join(map(str, op)) for op in rest]
            sp = c.write(f"script-{k.name()}-{i}", "\n".join(lines) + "\n")
            d2 = [dd[i % len(dd)], dd[(i + 1) % len(dd)]]
            items.append(Run(exe, ["--dims=" + "/".join(d2), "--script=" + sp], ranks=ranks,
                             env={"OMP_NUM_THREADS": str(1 + i % 4)} if k.omp else ({"MQMP_MAP": "1"} if i % 2 and ranks else {}),
                             label=f"sets {k.name()} ranks={ranks} history {i} {d2}"))
    c.conform_batched(items, "SetsTrace", size=4)
