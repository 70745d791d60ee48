#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of implemented checks (harness `vmon list` plus script checks)."""
import json, sys
IMPL = json.load(open('/verif/tools/impl.json'))
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
import subprocess
checks, na = [], []
for p in props:
    i = p['id']
    if i in IMPL['checks']:
        c = IMPL['checks'][i]
        checks.append({"property": i, "quick_cmd": f"bash /verif/check.sh {i} quick", "thorough_cmd": f"bash /verif/check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": c["technique"], "level": c.get("level", "exploration"), "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": IMPL['na'].get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "hooks": IMPL["hooks"], "checks": checks, "not_applicable": na, "notes": IMPL["notes"]}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
