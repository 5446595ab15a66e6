from fieldcheck import *
S, P = "scalar", "parscalar"


def run(c):
    o = {"OMP_NUM_THREADS": "3"}
    a, b = (2, 2, 2, 4), (4, 2, 2, 2)
    v = [(Config(S, "cb2"), a, 0, {}, .6), (Config(S, "cb2", sse=True), b, 0, {}), (Config(S, "cb2", generic=False), a, 0, {}, .4),
         (Config(S, "cb2", sse=True, omp=True), a, 0, o, .4), (Config(P, "cb2", sse=True), (4, 2, 2, 4), 2, {}, .3), (Config(S, "lex", sse=True), (2, 2, 3, 2), 0, {}, .3), (Config(P, "lex"), a, 2, {}, .15)]
    field_check(c, "C15", v, 2)
    v = [(Config(S, "cb2", sse="plain"), a, 0, {}), (Config(P, "cb2", sse=True), b, 2, {}, .3), (Config(S, "cb2"), b, 0, {}, .3), (Config(S, "cb2", sse=True, omp=True), a, 0, o, .3)]
    field_check(c, "C15D", v, 2, parts=8)
    v = [(Config(S, "cb2", sse=True, prec=64), a, 0, {}, .4), (Config(S, "cb2", prec=64), b, 0, {}, .2)]
    field_check(c, "C15F", v, 2, parts=8)
