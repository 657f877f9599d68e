#!/usr/bin/env python3
"""Generates MANIFEST.json from the table below and mc/programs.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
progs = json.load(open(os.path.join(V, "mc/programs.json")))
T = json.load(open(os.path.join(V, "tools/techniques.json")))
checks, na = [], []
for i in ids:
    if i in progs:
        t = T[i]
        checks.append(dict(property=i, quick_cmd="./check.py %s quick" % i, thorough_cmd="./check.py %s thorough" % i,
                           technique=t["technique"], level=t.get("level", "model_checking"), level_note=t["note"]))
    else:
        na.append(dict(property=i, reason="check under construction; not claimed yet"))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
    notes="Checks build the harnesses of mc/ into /repo's module with go build -overlay; nothing is written to /repo and no hooks are needed there."),
    open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
