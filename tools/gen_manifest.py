#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/checks.py; properties without a check are listed as not applicable."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS, NOTES
props = [json.loads(x) for x in open(os.path.join(HERE, "..", "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 run.py --build-all", checks=[], not_applicable=[],
         notes="Every check builds /repo's current tree itself (set-up only warms the cache in .build). No hooks in /repo: the monitors use the public API, instrumented streams, operator new and the sanitizers.")
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, n = NOTES[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 run.py " + i, thorough_cmd="python3 run.py %s --thorough" % i, technique=t, level=CHECKS[i]["level"], level_note=n))
    else:
        m["not_applicable"].append(dict(property=i, reason="The check is not built yet."))
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
