from fieldcheck import *
S, P = "scalar", "parscalar"


def run(c):
    o = {"OMP_NUM_THREADS": "3"}
    v = [(Config(S, "cb2"), (4, 2, 2, 2), 0, {}), (Config(S, "lex"), (2, 2, 3, 4), 0, {}, .25), (Config(S, "cb3d"), (4, 2, 4, 2), 0, {}, .12),
         (Config(S, "cb2", omp=True), (2, 2, 2, 4), 0, o, .5), (Config(P, "cb2"), (4, 2, 2, 4), 4, {}, .3), (Config(P, "lex"), (2, 2, 2, 6), 3, {"MQMP_JITTER": "1"}, .2),
         (Config(S, "cb2", prec=64), (2, 2, 2, 2), 0, {}, .3), (Config(S, "cb2", generic=False), (2, 2, 2, 4), 0, {}, .3), (Config(S, "cb2", sse="plain"), (2, 2, 2, 4), 0, {}, .3),
         (Config(S, "cb2", nc=2), (2, 2, 2, 2), 0, {}, .0)]
    field_check(c, "C04", v[:-1], 2)
