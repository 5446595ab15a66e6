from framework import *
S, P = "scalar", "parscalar"
CON = "CONSTANTS Files = 2\n Objs = 3\n"
GEN = 'SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n' + CON + ' Depth = %d\n KT = "%s"\n VT = "%s"\n Kill = %s\n Harm = %s\n'
MOD = "SPECIFICATION Spec\nINVARIANT Durable\nINVARIANT LastValue\nINVARIANT PointsAtTable\nCHECK_DEADLOCK FALSE\nCONSTANTS Keys = {%s}\n Vals = {1, 2}\n Steps = %d\n AtEnd = %s\n"
TYPES = [("int", "int"), ("rec", "arr"), ("int", "ts"), ("desc", "str"), ("dpair", "arr"), ("int", "arr")]


def run(c):
    cfgs = [(Config(S, "cb2"), 0, {}), (Config(P, "cb2"), 2, {"MQMP_JITTER": "30"}), (Config(P, "lex"), 4, {})]
    exes = build_all([(k[0], ["diskmap.cc"], {"extra": ("-include", "array"), "repo_sources": ("lib/qdp_map_obj_disk.cc",)}) for k in cfgs])
    c.model("DiskMapModel", MOD % (("1, 2, 3", 7, "TRUE") if THOROUGH else ("1, 2, 3", 6, "TRUE")), workers=8)
    c.model("DiskMapModel", MOD % ("1, 2, 3", 6, "FALSE"), expect_violation="LastValue")
    n, depth = (60, 120) if THOROUGH else (10, 80)
    jobs = [(t, k, h, w) for t in TYPES for k, h, w in (("TRUE", "FALSE", 0), ("TRUE", "TRUE", 0), ("FALSE", "FALSE", 1))]
    gen = list(c.pool.map(lambda j: (j, c.generate("DiskMapGen", GEN % (depth, *j[0], j[1], j[2]), n, depth + 4)), jobs))
    items = []
    for (ty, kill, harm, w), hs in gen:
        for j, h in enumerate(hs):
            sp = c.write(f"script-{'-'.join(ty)}-{kill}-{harm}-{j}", "\n".join(json.dumps(x, separators=(",", ":")) for x in h) + "\n")
            i = 0 if not w else (j % 3)
            items.append(Run(exes[i], ["--script=" + sp, "--dir=@D@", "--kill=" + ("1" if kill == "TRUE" else "0")], ranks=cfgs[i][1], env=cfgs[i][2], label=f"disk map {ty[0]} to {ty[1]}{', processes killed' if kill == 'TRUE' else ''}{', files damaged' if harm == 'TRUE' else ''}, {cfgs[i][0].name()} ranks={cfgs[i][1]}, history {j}", timeout=300))
    c.conform_batched(items, "DiskMapTrace", size=10, cfg=TRACE_CFG + CON)
