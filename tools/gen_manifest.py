#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of implemented checks below."""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(D + '/properties.jsonl')]
ids = [p['id'] for p in props]
exec(open(D + '/tools/claims.py').read())
checks, na = [], []
for i in ids:
    if i in CLAIMS:
        tech, note = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "technique": tech, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Property-based testing and fuzzing: one Rust harness crate (harness/), one runner, one stream set per property. See DESIGN.md."}
json.dump(m, open(D + '/MANIFEST.json', 'w'), indent=1)
