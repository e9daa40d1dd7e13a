#!/usr/bin/env python3
"""seedtable.py RESULTS.jsonl: print the table of seeded bugs for DESIGN.md section 7."""
import json, os, sys
det = {}
for l in open(sys.argv[1]):
    r = json.loads(l)
    if r['st'] == 'run':
        det[r['name']] = sorted(set(det.get(r['name'], [])) | set(r['det']))
print('| bug | needs | caught by |')
print('|---|---|---|')
for n in sorted(os.listdir('/verif/seeded')):
    m = json.load(open(f'/verif/seeded/{n}/meta.json'))
    print(f"| {n} | {m['needs']} | {' '.join(det.get(n, []))} |")
