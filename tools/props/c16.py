from fieldcheck import *
S, P = "scalar", "parscalar"


def run(c):
    a = (2, 2, 2, 2)
    v = [(Config(S, "cb2"), a, 0, {}), (Config(S, "cb2", sse=True), a, 0, {}, .5), (Config(P, "cb2"), (4, 2, 2, 2), 2, {}, .15), (Config(S, "cb2", generic=False), a, 0, {}, .4), (Config(S, "cb2", prec=64), a, 0, {}, .4)]
    field_check(c, "C16", v, 2)
    v = [(Config(S, "cb2"), a, 0, {}), (Config(S, "cb2", sse=True), a, 0, {}), (Config(S, "cb2", prec=64), a, 0, {}, .5)]
    field_check(c, "C16D", v, 2, parts=4)
