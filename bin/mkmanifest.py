#!/usr/bin/env python3
"""Regenerates MANIFEST.json from bin/props.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "bin"))
from props import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in PROPS:
        P = PROPS[i]
        checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                       "technique": P["technique"], "level": P["level"], "level_note": P["note"]})
    else:
        na.append({"property": i, "reason": "its specification and binding are still being built"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC; traces recorded from the real code by harness/ (and harness-gpu/) "
              "are validated against them, scenarios and encodings generated by TLC are replayed into the code. See DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
