#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist (lib/props.py)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from props import PROPS, NOTES  # noqa: E402

ids = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in PROPS:
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"env VERIF_TIER=thorough python3 check.py {i}", evidence_file=f"evidence/{i}.json",
                           technique="TLA+ specification, model checked with TLC; conformance of the real code by TLC judging recorded executions", level="model_checking",
                           level_note=NOTES.get(i, "")))
    else:
        na.append(dict(property=i, reason="The check of this property is not built yet."))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="TLA+ with TLC. See DESIGN.md; no hooks are needed in /repo, every observation is made through the exported API and the files that are written.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
