from fieldcheck import *
S, P = "scalar", "parscalar"


def run(c):
    o = {"OMP_NUM_THREADS": "4"}
    v = [(Config(S, "cb2"), (4, 2, 2, 4), 0, {}), (Config(S, "lex"), (2, 2, 3, 4), 0, {}, .5), (Config(S, "cb3d"), (4, 2, 4, 2), 0, {}, .4),
         (Config(S, "cb2", omp=True), (2, 2, 2, 4), 0, o), (Config(P, "cb2"), (4, 2, 2, 4), 4, {}), (Config(P, "lex"), (2, 2, 2, 6), 3, {"MQMP_JITTER": "1"}, .5),
         (Config(P, "cb2", omp=True), (2, 2, 4, 4), 2, dict(o), .5), (Config(P, "cb2"), (4, 4, 4, 4), 8, {"MQMP_JITTER": "1"}, .25),
         (Config(S, "cb2", prec=64), (2, 2, 2, 4), 0, {}, .7), (Config(S, "cb2", generic=False), (2, 2, 2, 4), 0, {}, .5), (Config(S, "cb2", sse=True), (2, 2, 2, 4), 0, {}),
         (Config(P, "cb2", sse=True), (4, 2, 2, 2), 2, {}, .7), (Config(S, "cb2", sse=True, omp=True), (2, 2, 4, 2), 0, o, .5)]
    field_check(c, "C05", v, 2)
