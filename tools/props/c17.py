from fieldcheck import *
S, P = "scalar", "parscalar"


def run(c):
    v = [(Config(S, "cb2"), (4, 2, 2, 2), 0, {}), (Config(S, "lex"), (2, 2, 3, 4), 0, {}, .3), (Config(P, "cb2"), (4, 2, 2, 4), 4, {}, .5), (Config(P, "lex"), (2, 2, 2, 6), 3, {"MQMP_JITTER": "1"}, .3),
         (Config(S, "cb2", omp=True), (2, 2, 2, 4), 0, {"OMP_NUM_THREADS": "3"}, .3), (Config(P, "cb3d"), (4, 2, 4, 2), 2, {"MQMP_MAP": "1"}, .2), (Config(S, "cb2", sse="plain"), (2, 2, 2, 4), 0, {}, .2)]
    field_check(c, "C17", v, 2)
