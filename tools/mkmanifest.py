#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/specs.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import specs
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in specs.SPECS:
        s = specs.SPECS[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": s["technique"], "level": "model_checking",
                       "level_note": s["level_note"]})
    else:
        na.append({"property": i, "reason": specs.NOT_CLAIMED.get(i, "no check built yet")})
m = {"version": 1,
     "setup_cmd": "python3 run.py --setup",
     "hooks": {"guard": "IEME_VERIF", "enable": "no hooks were needed: the checks use the public headers as they are", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Each check compiles its harness against /repo/include on every run; see DESIGN.md."}
open(os.path.join(HERE, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
