from fieldcheck import *
S, P = "scalar", "parscalar"


def run(c):
    a = (2, 2, 2, 2)
    v = [(Config(S, "cb2"), a, 0, {}), (Config(S, "cb2", sse=True), a, 0, {}, .5), (Config(S, "cb2", generic=False), a, 0, {}, .4), (Config(S, "cb2", prec=64), a, 0, {}, .4),
         (Config(P, "cb2"), (4, 2, 2, 2), 2, {}, .15), (Config(S, "lex", nd=4), (2, 3, 2, 2), 0, {}, .15)]
    field_check(c, "C24", v, 2)
