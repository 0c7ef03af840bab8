#!/usr/bin/env python3
"""units.py ID: what each unit of the last run of a check covered."""
import json, sys
e = json.load(open(f'/verif/evidence/{sys.argv[1]}.json'))
for u in e['coverage']['units']:
    ex = u.get('explored') or []
    print(f"{u['unit'][:80]:80} ev={u['evaluations']} distinct={u['distinct']} exh={u['exhaustive']} wall={sum(x.get('wall_s',0) for x in ex):.1f} bounds={[(x.get('deviation_bound_completed'),x.get('deviation_bound_asked')) for x in ex][:4]}")
