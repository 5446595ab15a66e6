from framework import *
S, P = "scalar", "parscalar"
GEN = 'SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS Maps = 3\n Depth = %d\n KT = "%s"\n VT = "%s"\n'
MOD = "SPECIFICATION Spec\nINVARIANT Reflects\nINVARIANT SameKey\nCHECK_DEADLOCK FALSE\nCONSTANTS Maps = %d\n Steps = %d\n"
TYPES = [("int", "int"), ("int", "arr"), ("rec", "int"), ("rec", "str"), ("arr", "arr"), ("dbl", "int"), ("str", "str"), ("str", "int"), ("pair", "arr"), ("pair", "int")]


def ended(ev, d, rc): return ev + [{"e": "exit", "rc": rc}] if rc in (0, 1) else ev


def run(c):
    cfgs = [(Config(S, "cb2"), 0), (Config(S, "cb2", san=True), 0), (Config(P, "cb2"), 2)]
    exes = build_all([(k[0], ["mapmem.cc"], {"extra": ("-include", "xmlstub.h")}) for k in cfgs])
    c.model("MapMemModel", MOD % ((2, 5) if THOROUGH else (2, 4)), workers=8)
    n, depth = (60, 150) if THOROUGH else (12, 80)
    gen = list(c.pool.map(lambda t: (t, c.generate("MapMemGen", GEN % (depth, *t), n, depth + 4)), TYPES))
    items = []
    for (kt, vt), hs in gen:
        for j, h in enumerate(hs):
            sp = c.write(f"script-{kt}-{vt}-{j}", "\n".join(json.dumps(x, separators=(",", ":")) for x in h) + "\n")
            i = j % 3
            items.append(Run(exes[i], ["--script=" + sp], ranks=cfgs[i][1], expect_rc=1, post=ended, label=f"map {kt} to {vt}, {cfgs[i][0].name()} ranks={cfgs[i][1]}, history {j}"))
    c.conform_batched(items, "MapMemTrace", size=15, cfg=TRACE_CFG + "CONSTANTS Maps = 3\n")
