#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/claims.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claims = json.load(open(here + '/tools/claims.json'))
props = [json.loads(l) for l in open(here + '/properties.jsonl') if l.strip()]
checks, na = [], []
for p in props:
    i = p['id']
    c = claims['claimed'].get(i)
    if c:
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": c['technique'], "level": "other", "level_note": c['note']})
    else:
        na.append({"property": i, "reason": claims['not_applicable'].get(i, "no check yet")})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
