from fieldcheck import *
S, P = "scalar", "parscalar"


def run(c):
    kw = dict(main=("fields_main.cc", "maps.cc"), extra=("-DHAVE_MAPS",))
    j = {"MQMP_JITTER": "1"}
    t2, t4 = {"MQMP_GRID": "1,1,1,2"}, {"MQMP_GRID": "1,1,1,4"}
    v = [(Config(S, "cb2"), (4, 2, 2, 4), 0, {}, .6),
         (Config(S, "lex"), (2, 3, 2, 5), 0, {}, .25), (Config(S, "cb3d"), (4, 2, 4, 2), 0, {}, .25), (Config(S, "cb32"), (4, 4, 2, 4), 0, {}, .15),
         (Config(P, "cb2"), (2, 2, 2, 8), 2, dict(t2), .5), (Config(P, "lex"), (2, 3, 2, 8), 4, dict(t4, **j), .3),
         (Config(P, "cb3d"), (4, 2, 2, 4), 2, dict(t2, MQMP_MAP="1"), .2),
         (Config(S, "cb2", omp=True), (4, 2, 2, 4), 0, {"OMP_NUM_THREADS": "3"}, .2)]
    field_check(c, "C03", v, 2, **kw)
    # any machine geometry: shifts only
    v = [(Config(P, "cb2"), (4, 4, 2, 4), 4, {}, .5), (Config(P, "lex"), (6, 2, 2, 4), 3, j, .4), (Config(P, "cb2"), (4, 4, 4, 4), 8, j, .15),
         (Config(P, "cb2"), (4, 4, 4, 2), 4, {"MQMP_MAP": "1"}, .4), (Config(P, "cb3d"), (4, 4, 2, 2), 2, dict(j, MQMP_RENDEZVOUS="1"), .4)]
    field_check(c, "C03", v, 2, sel=lambda ops: [o for o in ops if "smap" not in json.dumps(o.ast)], name="C03S")
