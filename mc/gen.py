# -*- coding: utf-8 -*-
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mechanism, observe, technique, level, note, state=(), built=True, na=None):
    P.append(dict(
        id=id, title=title, statement=statement, quantifier={"over": over, "text": quant},
        why_tests_cant=why,
        anchors={"files": files, "mechanism": [dict(name=n, where=w) for n, w in mechanism],
                 "state": [dict(name=n, meaning=m, where=w) for n, m, w in state]},
        observe_at=observe, hook_needed=False,
        _technique=technique, _level=level, _note=note, _built=built, _na=na))


CORE = "core/ipyflow/"
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
man = {
    "version": 1,
    "setup_cmd": "true",
    "checks": [
        dict(property=p["id"], quick_cmd="./check %s" % p["id"], thorough_cmd="./check %s --tier thorough" % p["id"],
             technique=p["_technique"], level=p["_level"], level_note=p["_note"])
        for p in P if p["_built"]],
    "not_applicable": [dict(property=p["id"], reason=p["_na"] or "check not built yet") for p in P if not p["_built"]],
    "notes": "Every check imports ipyflow from /repo's working tree (frontend checks transpile /repo's TypeScript), drives the real code and enumerates all executions within the stated bounds; no hooks in /repo are needed. See DESIGN.md.",
}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
except ImportError:
    sys.exit(0)
ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in P:
    jsonschema.validate({k: v for k, v in p.items() if not k.startswith("_")}, ps)
jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
print("ok", len(P), len(man["checks"]))
