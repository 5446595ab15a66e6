from framework import *
S, P = "scalar", "parscalar"
CON = 'CONSTANTS Arch = "%s"\n Kind = "%s"\n NodesN = %d\n D = %d\n'
GEN = "SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
MOD = "SPECIFICATION Spec\nINVARIANTS OnRight CreatedOn NeverTwice GoodLattice FreshStart\nPROPERTY OneGrid\nCHECK_DEADLOCK FALSE\n"


def lives(c, k, exe, n, num, depth, long):
    con = CON % (k.arch, k.layout, max(n, 1), 4)
    hs = c.generate("LifecycleGen", GEN + con + f" Depth = {depth}\n Long = {long}\n", num, depth + 4)
    fresh, runs = {}, []

    def start(L):
        """what a new process that creates this lattice first of all holds about it"""
        key = tuple(L)
        if key not in fresh:
            sp = c.write(f"fresh-{k.name()}-{n}-{'x'.join(map(str, L))}", '["init",[]]\n["size",%s]\n["create"]\n' % json.dumps(L))
            _, ev, rc = c.execute(Run(exe, ["--script=" + sp], ranks=1 if n else 0, env={"ASAN_OPTIONS": "detect_leaks=0"}), f"fresh-{k.name()}-{n}-{len(fresh)}")
            d = [e["digest"] for e in ev if "digest" in e]
            fresh[key] = d[0] if d else None
        return fresh[key]

    def post(h):
        def f(ev, d, rc):
            if ev and ev[-1]["e"] == "ABORT":
                ev = ev[:-1]
                # the call that ended the process may be in the log of one node only
                for r in range(max(n, 1)):
                    p = os.path.join(d, f"t.{r}")
                    if os.path.exists(p) and (not ev or ev[-1]["e"] != "do"):
                        ln = open(p, encoding="latin-1").read().splitlines()
                        if len(ln) > len(ev):
                            x = json.loads(ln[len(ev)])["a"]
                            if x["e"] == "do": ev = ev + [x]
                ev = ev + [{"e": "exit", "rc": rc}]
            want = sorted({tuple(x[1]) for x in h if x[0] == "size" and len(x[1]) == 4 and min(x[1]) > 0})
            return [{"e": "fresh", "lat": list(L), "digest": start(list(L))} for L in want if start(list(L))] + ev
        return f
    for h in hs:  # (kept out of the pool of executions)
        for x in h:
            if x[0] == "size" and len(x[1]) == 4 and min(x[1]) > 0: start(x[1])
    for j, h in enumerate(hs):
        sp = c.write(f"script-{k.name()}-{n}-{j}", "\n".join(json.dumps(x, separators=(",", ":")) for x in h) + "\n")
        runs.append(Run(exe, ["--script=" + sp], ranks=n, post=post(h), env={"ASAN_OPTIONS": "detect_leaks=0"}, label=f"life, {k.name()}, {n} nodes, {j}"))
    return runs, con


def run(c):
    steps = 6 if THOROUGH else 5
    for arch in (S, P):
        c.model("LifecycleModel", MOD + CON % (arch, "lex", 2 if arch == P else 1, 2) + f' Steps = {steps}\n Forget = "none"\n', workers=8)
    for f in ("sets", "maps", "mult", "seed"):
        c.model("LifecycleModel", MOD + CON % (S, "lex", 1, 2) + f' Steps = 7\n Forget = "{f}"\n', workers=8, expect_violation="FreshStart")
    cfgs = [(Config(S, "cb2"), (0,)), (Config(S, "lex"), (0,)), (Config(S, "cb2", prec=64, omp=True), (0,)), (Config(S, "cb32"), (0,)), (Config(S, "cb3d"), (0,)), (Config(S, "cb2", san=True), (0,)),
            (Config(P, "cb2"), (1, 2, 4)), (Config(P, "lex"), (2, 3)), (Config(P, "cb3d"), (4,))]
    exes = build_all([(k, ["lifecycle.cc"], {}) for k, _ in cfgs])
    num, depth = (200, 60) if THOROUGH else (24, 30)
    for (k, ns), exe in zip(cfgs, exes):
        for n in ns:
            runs, con = lives(c, k, exe, n, num, depth, 6)
            c.conform_batched(runs, "LifecycleTrace", size=12, cfg=TRACE_CFG + con)
