#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and the list of properties without a check."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="true", checks=[], not_applicable=[])
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        m["checks"].append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
            technique=p.get("technique", "code contracts discharged by CBMC (CaDiCaL / cvc5 back ends) on the real C functions"),
            level=p.get("level", "proof"), level_note=p.get("level_note", "")))
    else:
        m["not_applicable"].append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no contract has been built for it yet")))
m["hooks"] = dict(guard="DUCK_VERIFY", enable="-DDUCK_VERIFY (no hook is in the tree at present)", source_commits=[])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
