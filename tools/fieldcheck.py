"""common driver of the properties decided on data-parallel statements"""
import json, os, random
from framework import *
import fieldgen, optables

GEN = """SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS NReg = 3
 NSubs = %d
 Limit = %d
 Vol = 128
"""
NSUBS = 14


def ops_of(prop):
    out = fieldgen.parse_ops(optables.TABLES[prop]())
    # statements that read their own destination only where that is relied on
    return [o for o in out if not ('["reg", "D"]' in json.dumps(o.ast) and o.kind == "assign" and not o.proc and not fieldgen.selfref_ok(o))]


def field_check(c, prop, variants, nscripts, limit=4000000, main=("fields_main.cc",), extra=(), decl="", chunk=30, sel=None, heap="2500m", batch=0, parts=16, name=None):
    """variants: list of (Config, dims, ranks, env[, share of the table in the quick tier])"""
    ops = ops_of(prop)
    if sel: ops = sel(ops)
    name = name or prop
    for i, o in enumerate(ops): o.id = i
    files = fieldgen.gen_cpp(ops, name, chunk=chunk, extra_decl=decl)
    cfgs = {}
    for v in variants: cfgs[v[0].name()] = v[0]
    exes = dict(zip(cfgs, build_all([(k, list(main) + files, {"name": "fields-" + name, "extra": tuple(extra) + ("-I", os.path.join(WORK, "gen", name))}) for k in cfgs.values()])))
    # the table is cut into parts that are replayed and validated independently
    order = [i for i in range(len(ops)) if not ops[i].alone]
    parts = min(parts, len(order))
    random.Random(SEED).shuffle(order)
    rows = fieldgen.optable(ops)
    tabs = [c.write(f"{name}-optab{k}.ndjson", "".join(json.dumps(rows[i]) + "\n" for i in sorted(order[k::parts]))) for k in range(parts)]
    for i, o in enumerate(ops):   # statements with a known finding run on their own
        if o.alone: tabs.append(c.write(f"{name}-optab{len(tabs)}.ndjson", json.dumps(rows[i]) + "\n"))
    parts = len(tabs)
    hists = list(c.pool.map(lambda k: c.generate("FieldGen", GEN % (NSUBS, limit), nscripts, 4 * (len(ops) // parts + 1) + 10, env={"OPTAB": tabs[k]}), range(parts)))
    items = []
    post = fieldgen.poster(ops)
    at = 0
    for i, var in enumerate(variants):
        k, dd, ranks, env = var[:4]
        share = parts if THOROUGH or len(var) < 5 else max(1, round(var[4] * parts))
        for q in [(at + x) % parts for x in range(share)]:
            for j in range(nscripts if THOROUGH else 1):
                n = (i + j) % len(hists[q])
                sp = c.write(f"{name}-script-{i}-{q}-{j}", fieldgen.script(hists[q][n], dd, skip=var[5] if len(var) > 5 else ()))
                items.append(Run(exes[k.name()], ["--dims=" + dims(dd), "--script=" + sp], ranks=ranks, env=env, post=post, timeout=120,
                                 label=f"{name} {k.name()} {dims(dd)} ranks={ranks} {env} part {q} script {n}"))
        at += share
    c.notes["statements_in_table"] = c.notes.get("statements_in_table", 0) + len(ops)
    c.conform_batched(items, "FieldTrace", size=batch or max(1, (len(items) + 23) // 24), heap=heap)
    return ops
