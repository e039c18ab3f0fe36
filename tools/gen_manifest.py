#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plans, levels
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plans.PLANS:
        tech, level, note = levels.LEVELS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 tools/check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 tools/check.py {i}",
                           evidence_file=f"evidence/{i}.json", technique=tech, level=level, level_note=note))
    else:
        na.append(dict(property=i, reason=levels.NOT_APPLICABLE.get(i, "check under construction")))
m = dict(version=1, setup_cmd="bash tools/setup.sh", hooks=dict(guard="none", enable="no hooks are needed: the public API and caller-supplied component types expose everything observed", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="TLA+ specifications in spec/, checked with TLC; conformance programs in harness/; driver in tools/. See DESIGN.md.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
