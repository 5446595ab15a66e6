from framework import *
P = "parscalar"
MOD = "SPECIFICATION Spec\nINVARIANTS Delivered NoDeadlock NothingLeft NoPileUp\n%sCHECK_DEADLOCK FALSE\nCONSTANTS N = %d\n Count = %d\n Kinds = {%s}\n"
GEN = "SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth = %d\n"
OPS = '"shift","sum","peek","write","read"'


def messages(ev, d, rc):
    """the nodes' own accounts of their messages follow the values they agree on"""
    logs = []
    while os.path.exists(os.path.join(d, f"mq.{len(logs)}")):
        logs.append([json.loads(x) for x in open(os.path.join(d, f"mq.{len(logs)}")) if x.strip().endswith("]")])
    return ev + [{"e": "comm", "logs": logs}]


def run(c):
    c.model("CommModel", MOD % ("PROPERTY AllDone\n", 3, 1, OPS), workers=8)
    c.model("CommModel", MOD % ("", 2, 2, OPS), workers=8)
    if THOROUGH:
        c.model("CommModel", MOD % ("", 3, 2, '"shift","sum","peek"'), workers=8, timeout=1500)
        c.model("CommModel", MOD % ("", 4, 1, OPS), workers=8, timeout=1500)
    c.model("CommModel", MOD % ("", 2, 1, '"sendfirst"'), expect_violation="NoDeadlock")
    c.model("CommModel", MOD % ("", 2, 1, '"alone"'), expect_violation="NoDeadlock")
    c.model("CommModel", MOD % ("", 2, 1, '"lost"'), expect_violation="NothingLeft")
    c.model("CommModel", (MOD % ("", 3, 1, '"write"')).replace("NoPileUp", "OneAtATime"), expect_violation="OneAtATime")
    lays = ["cb2", "lex", "cb3d"]
    cfgs = [Config(P, x) for x in lays]
    exes = dict(zip(lays, build_all([(k, ["comm.cc"], {}) for k in cfgs])))
    jobs = [("cb2", 2, "4,2,2,4", {}), ("cb2", 4, "4,4,2,4", {"MQMP_MAP": "1"}), ("lex", 3, "3,2,2,6", {}), ("cb3d", 4, "4,2,4,4", {"MQMP_ICTYPE": "1"}), ("lex", 8, "4,4,4,4", {"MQMP_GRID": "2,2,2,1"}), ("cb2", 8, "4,4,4,8", {"MQMP_GRID": "2,1,1,4"}), ("lex", 6, "2,2,3,2", {}), ("cb2", 1, "2,2,2,2", {}), ("lex", 5, "5,1,2,2", {})]
    how = [{}, {"MQMP_RENDEZVOUS": "1"}, {"MQMP_RENDEZVOUS": "1", "MQMP_JITTER": "40"}, {"MQMP_JITTER": "80"}]
    depth, num = (120, 40) if THOROUGH else (60, 6)
    hs = c.generate("CommGen", GEN % depth, num, depth + 3)
    items = []
    for j, h in enumerate(hs):
        sp = c.write(f"script-{j}", "\n".join(json.dumps(x) for x in h) + "\n")
        for i, (lay, n, dims, env) in enumerate(jobs):
            for w in ([how[(i + j) % 4]] if not THOROUGH else how):
                for grid in ([{}, {"MQMP_ICTYPE": "1"}] if THOROUGH else [{}]):
                    e = dict(env, **w, **grid, MQMP_LOG="@D@/mq", MQMP_SEED=str(SEED * 1000 + j * 10 + i))
                    items.append(Run(exes[lay], ["--script=" + sp, "--file=@D@/f", "--dims=" + dims], ranks=n, env=e, post=messages, timeout=200, label=f"messages, {lay}, {n} nodes, {dims}, {e}, script {j}"))
    c.conform_batched(items, "CommTrace", size=3)
