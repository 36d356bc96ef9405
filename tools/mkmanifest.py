#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/sa")
import registry
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = registry.NOT_APPLICABLE
checks, na = [], []
for p in props:
    i = p["id"]
    e = registry.CHECKS.get(i)
    if e:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": registry.TECHNIQUE.get(i, registry.SUMMARY), "level": "other",
                       "level_note": e.get("note", registry.NOTE)})
    else:
        na.append({"property": i, "reason": NA.get(i, "No static rule for it has been built yet in this framework.")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "Every check compiles the dump driver, dumps the typed program of /repo's current tree with it and decides "
                    "the property's obligations on that; nothing of /repo is executed. /repo carries no hooks."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
