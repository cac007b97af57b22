#!/usr/bin/env python3
"""Writes MANIFEST.json from claims.json and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(here + '/properties.jsonl') if l.strip()]
cl = json.load(open(here + '/claims.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in cl['claims']:
        c = cl['claims'][i]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": c['technique'], "level": "other", "level_note": c['note']})
    else:
        na.append({"property": i, "reason": cl['na'].get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na, "notes": cl['notes']}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open(here + '/MANIFEST.json', 'a').write('\n')
