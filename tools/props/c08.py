from framework import *
GEN = "SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth = %d\n MaxItems = %d\n"
S, P = "scalar", "parscalar"


def flat(o): return " ".join(str(x) for x in o)


def stream_check(c, nh, depth, maxitems, sweep):
    v = [(Config(S, "cb2"), 0, {}), (Config(S, "lex", prec=64), 0, {}), (Config(P, "cb2"), 2, {"MQMP_JITTER": "30"}), (Config(P, "lex"), 4, {}), (Config(P, "cb3d"), 1, {})]
    exes = build_all([(k[0], ["binio.cc"], {}) for k in v])
    c.model("StreamModel", "SPECIFICATION Spec\nINVARIANT Sum\nINVARIANT Inside\nINVARIANT OneCursor\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxLen = %d\n MaxOps = %d\n Kinds = {%s}\n" % (
        (5, 7, '"FR","FW","FRW","BR","BW","BRW"') if THOROUGH else (4, 5, '"FR","FRW","FW","BRW"')), workers=8)
    hists = c.generate("StreamGen", GEN % (depth, maxitems), nh, depth + 2) if nh else []
    # every shape written, then read back, through a file and through a buffer
    items = []
    for i, (k, ranks, env) in enumerate(v):
        hs = list(hists) if i == 0 else hists[i::4]
        for j, h in enumerate((sweep(c, i) if sweep else []) + hs):
            sp = c.write(f"script-{i}-{j}", "\n".join(flat(o) for o in h) + "\n")
            items.append(Run(exes[i], ["--script=" + sp, "--file=@D@/stream.bin"], ranks=ranks, env=env, label=f"stream {k.name()} ranks={ranks} history {j}"))
    c.conform_batched(items, "StreamTrace", size=6)


PR = "char short ushort int uint long ulong llong float double bool cf cd".split()
EL = "int double float short cf char".split()


def shapes(r):
    o = [["P", t] for t in PR] + [["desc", "x", n] for n in (0, 1, 7, 40)] + [["line", "x", n] for n in (0, 1, 9, 33)]
    o += [["A1", t, n] for t in PR for n in (r.choice([0, 1, 2, 5]), 3)]
    for t in EL:
        d = lambda k: [r.choice([0, 1, 2, 3, 3, 4, 4, 5]) for _ in range(k)]
        full = lambda k: r.sample([1, 2, 3, 4, 5][: max(3, k)], k) if k <= 5 else d(k)
        for k in (2, 3, 4, 5):
            o += [[f"A{k}", t] + d(k), [f"A{k}", t] + (r.sample([2, 3, 4], k) if k <= 3 else r.sample([1, 2, 3, 1, 2], k))]
        o += [["AN", t] + full(k) for k in (1, 2, 3, 4)] + [["AN", t] + d(2)]
        o += [[s, t, n] for s in "VLOM" for n in (0, r.choice([1, 2, 3, 6]))] + [["R", t], ["N2", t, r.choice([0, 1, 2]), 3], ["N2", t, 3, 2]]
    o += [["N1", t, r.choice([0, 1, 4])] for t in PR] + [["W", "x", s, n] for s in (1, 2, 4, 8) for n in (0, 1, 5)] + [["WP", "x", s, 3] for s in (1, 2, 4, 8)]
    o += [["AA", "int", n, m] for n, m in ((0, 1), (3, 2), (4, 0))] + [[s, "x", n] for s in ("VP", "LV", "AR", "MP") for n in (0, 1, 3)] + [["MA", "x", n, m] for n, m in ((0, 0), (3, 1))]
    o += [["Q", t] for t in "Real Complex ColorVector ColorMatrix Fermion Integer RealD Boolean ComplexD SpinMatrix Seed".split()] + [["QA", t, n] for t in ("Real", "Complex") for n in (0, 3)] + [["QA2", "Real", 2, 3], ["QA2", "Real", 0, 2]]
    return o


def sweep(c, i):
    """all shapes, in random order, through every kind of writer and reader"""
    out = []
    for w, rd in (("FW", "FR"), ("BW", "BR"), ("FRW", "FRW"), ("BRW", "BRW")):
        for rep in range(3 if THOROUGH else 1):
            sh = shapes(c.rng); c.rng.shuffle(sh)
            if i > 0 and not THOROUGH: sh = sh[: len(sh) // 2]
            h = [["open", w, 1, rep & 1, 1]]
            seeds = [c.rng.randrange(1, 10 ** 6) for _ in sh]
            h += [["w", k + 1, seeds[k], c.rng.randrange(3), k % 7 == 0] + s for k, s in enumerate(sh)]
            if w == "FW" or w == "FRW": h += [["close"], ["open", rd, 0, 1, 1]]
            elif w == "BRW": h += [["str"], ["seek", "rewind", 1, 1]]
            else:       # the buffer's bytes go to the reader by way of a file of the same content
                h += [["str"], ["close"], ["open", "FW", 1, 0, 1]] + [["w", k + 1, seeds[k], c.rng.randrange(3), 0] + s for k, s in enumerate(sh)] + [["close"], ["open", rd, 0, 1, 1], ["str"]]
            h += [["r", k + 1, seeds[k], c.rng.randrange(3), k % 7 == 0] + s for k, s in enumerate(sh)] + [["query"], ["close"]]
            out.append([[int(x) if isinstance(x, bool) else x for x in o] for o in h])
    return out


def run(c): stream_check(c, 16 if THOROUGH else 4, 60, 12, sweep)
