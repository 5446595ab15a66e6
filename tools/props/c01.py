from framework import *


def refusal(ev, d, rc):
    """a run that ended abnormally after asking for a lattice is a refusal of that lattice"""
    if ev and ev[-1]["e"] == "ABORT" and len(ev) > 1 and ev[-2]["e"] == "create" and ev[-1]["rc"] not in (0, 124, 86):
        ev[-1] = {"e": "refused", "rc": ev[-1]["rc"]}
    return ev


def sizes(nd, kind, rng, n):
    """lattice sizes: representable ones of many shapes, and some that are not"""
    out = []
    b = {"lex": [1] * nd, "cb2": [2] + [1] * (nd - 1), "cb3d": [2] + [1] * (nd - 1), "cb32": [4] + [2] * (nd - 1)}[kind]
    while len(out) < n:
        L = [b[m] * rng.choice([1, 1, 2, 2, 3, 4, 5]) for m in range(nd)]
        v = 1
        for x in L: v *= x
        if v <= 400 and L not in out: out.append(L)
    return out


def run(c):
    cfgs = {}
    for lay in ("lex", "cb2", "cb3d", "cb32"):
        cfgs[("scalar", 4, lay)] = Config("scalar", lay)
        if lay != "cb32": cfgs[("parscalar", 4, lay)] = Config("parscalar", lay)
    cfgs[("scalar", 3, "cb2")] = Config("scalar", "cb2", nd=3)
    cfgs[("parscalar", 3, "cb3d")] = Config("parscalar", "cb3d", nd=3)
    exes = dict(zip(cfgs, build_all([(cfg, ["layout.cc"], {}) for cfg in cfgs.values()])))

    c.model("LayoutModel", "SPECIFICATION Spec\nINVARIANT LayoutBijective\nINVARIANT ColourBlocks\nCHECK_DEADLOCK FALSE\n"
            f"CONSTANTS MaxExt = 4\n MaxNodes = {8 if THOROUGH else 4}\n Ndim = 3\n", workers=8, timeout=800)
    items = []
    ngood = 12 if THOROUGH else 5
    for (arch, nd, lay), exe in exes.items():
        good = sizes(nd, lay, c.rng, ngood)
        fixed = {4: [[4, 2, 2, 2], [4, 4, 2, 6], [8, 2, 4, 2]], 3: [[4, 2, 6]]}[nd]
        bad = {4: [[3, 2, 2, 2], [2, 3, 3, 3], [6, 2, 2, 2], [4, 3, 2, 2], [5, 5, 2, 1], [1, 2, 2, 2], [2, 2, 2, 2], [3, 3, 3, 3], [4, 2, 2, 3], [12, 2, 2, 6]],
               3: [[3, 2, 2], [2, 3, 3]]}[nd]
        ranks = [0] if arch == "scalar" else [1, 2, 3, 4, 6, 8]
        for n in ranks:
            g = good + fixed
            for L in g + bad:
                for env in ([{}, {"MQMP_MAP": "1"}] if n > 1 and (THOROUGH or L in fixed) else [{}]):
                    items.append((Run(exe, ["--dims=" + dims(L), "--kind=" + lay], ranks=n, env=env,
                                      label=f"layout {arch} {lay} nd={nd} {dims(L)} ranks={n} {env}", post=refusal), "LayoutTrace"))
            # several lattices one after the other in one process
            if all(x % max(n, 1) == 0 for x in [4]):
                items.append((Run(exe, ["--dims=" + "/".join(dims(L) for L in fixed + fixed[:1]), "--kind=" + lay], ranks=n,
                                  label=f"layouts in sequence {arch} {lay} ranks={n}", post=refusal), "LayoutTrace"))
    c.conform_batched(items, "LayoutTrace", size=12)
