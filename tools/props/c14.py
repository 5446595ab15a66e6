from framework import *
CON = "CONSTANTS Slots = 8\n"
GEN = 'SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n' + CON + ' Depth = %d\n'
MOD = """SPECIFICATION Spec
INVARIANTS Aligned Inside Disjoint OneOwner NoLeak NotRefused ViewsLive
CHECK_DEADLOCK FALSE
CONSTANTS H = %d
 A = 4
 RawA = 1
 Slop = %d
 Sizes = {0, 1, 4}
 Objs = {1, 2, 3}
 Steps = %d
"""
S = "scalar"


def ended(ev, d, rc): return ev + [{"e": "exit", "rc": rc}] if rc in (0, 1) and ev and ev[-1]["e"] == "try" else ev


def run(c):
    cfgs = [Config(S, "cb2"), Config(S, "lex", align=64), Config(S, "cb2", prec=64, align=128), Config(S, "cb2", align=32, extra=("-DQDP_DEBUG_MEMORY",)), Config(S, "cb2", omp=True, align=256)]
    exes = build_all([(k, ["alloc.cc"], {}) for k in cfgs])
    c.model("AllocModel", MOD % ((16, 4, 8) if THOROUGH else (14, 4, 6)), workers=8)
    c.model("AllocModel", MOD % (14, 2, 4), expect_violation="Inside")
    n, depth = (800, 200) if THOROUGH else (80, 120)
    items = []
    for j, h in enumerate(c.generate("AllocGen", GEN % depth, n, depth + 4)):
        sp = c.write(f"script-{j}", "\n".join(json.dumps(x, separators=(",", ":")) for x in h) + "\n")
        i = j % len(cfgs)
        items.append(Run(exes[i], ["--script=" + sp], env={"OMP_NUM_THREADS": "3"}, expect_rc=1 if h[-1][0] == "bad" else 0, post=ended, label=f"memory, {cfgs[i].name()}, history {j}"))
    c.conform_batched(items, "AllocTrace", size=5, cfg=TRACE_CFG + CON)
