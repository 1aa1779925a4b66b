#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
assert set(ids) == set(PROPS) | set(NOT_APPLICABLE), set(ids) ^ (set(PROPS) | set(NOT_APPLICABLE))
checks = []
for i in ids:
    if i in PROPS:
        checks.append(dict(
            property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique="bounded symbolic execution of the compiled LLVM IR of the real code, decided by Z3",
            level="model_checking", level_note=PROPS[i]["note"]))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()],
         notes="No hooks in /repo are needed: the harness crates link the real crates and call their public functions.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
