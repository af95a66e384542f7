#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
PARSE = ("explicit-state exploration of bounded input spaces with an independent reference grammar as the model; "
         "every model trace is replayed against Parse")
CLAIMED = {}
def claim(i, technique, level, note):
    CLAIMED[i] = (technique, level, note)
exec(open(os.path.join(here, 'tools', 'claims.py')).read())
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMED:
        t, l, n = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": l, "level_note": n})
    else:
        na.append({"property": i, "reason": "no check is built for it yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
