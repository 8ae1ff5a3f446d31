#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl, tools/claims.json (technique and level note per claimed property)."""
import json, os
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(d + '/properties.jsonl')]
claims = json.load(open(d + '/tools/claims.json'))
na = json.load(open(d + '/tools/not_applicable.json'))
checks, notapp = [], []
for p in props:
    i = p['id']
    if i in claims:
        c = claims[i]
        checks.append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": c["technique"], "level": "other", "level_note": c["note"]})
    else:
        notapp.append({"property": i, "reason": na.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": notapp}
json.dump(m, open(d + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open(d + '/MANIFEST.json', 'a').write('\n')
