#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
TLC = "TLA+ specification checked with TLC; "
FIELD = TLC + "statement histories generated by TLC are replayed into the real library and every recorded site value is validated against the TLA+ semantics of the statement by TLC"
TECH = {
    "C01": TLC + "layouts built by the real code on every node are validated against the layout specification",
    "C02": TLC + "TLC-generated histories of set operations are replayed and the resulting subsets validated step by step",
    "C06": TLC + "TLC-generated histories of draws and seed operations are replayed and every random number is recomputed by the specification",
    "C07": TLC + "TLC-generated histories of draws and seed operations are replayed and every random number is recomputed by the specification",
    "C08": TLC + "TLC-generated write/read histories are replayed and the bytes and values validated against the specification",
    "C09": TLC + "TLC-generated stream histories (seek, rewind, rewrite, reopen) are replayed and positions and checksums validated",
    "C18": TLC + "the message log of real multi-node runs is validated against a protocol specification; runs under many schedules on a deadlock-detecting message layer",
}
NOTE = {}
NA = {}
checks = []
for i in ids:
    if os.path.exists(os.path.join(V, "tools/props", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": f"python3 tools/check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 tools/check.py {i}",
                       "technique": TECH.get(i, FIELD if i in ("C03", "C04", "C05", "C15", "C16", "C17", "C24") else TLC + "TLC-generated histories are replayed into the real code and the recorded behaviour is validated against the specification"),
                       "level": "model_checking",
                       "level_note": NOTE.get(i, "the design model is explored exhaustively within the bounds given in DESIGN.md; the binding to the code is by validating traces of generated histories, so inputs outside those histories are not covered")})
    elif i not in NA:
        NA[i] = "no check yet: work in progress"
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "none", "enable": "no hooks: the checks observe the library through its public interface, a message layer of their own and replaced operator new", "source_commits": []},
     "checks": checks, "notes": "quick and thorough commands build the library from /repo's working tree in the configurations they need; see DESIGN.md",
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items()) if k in ids and not any(c["property"] == k for c in checks)]}
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks;", [x["property"] for x in m["not_applicable"]])
