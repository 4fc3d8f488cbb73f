#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property that has tests."""
import glob, json, re, os
os.chdir(os.path.join(os.path.dirname(__file__), '..'))
props = [json.loads(l) for l in open('properties.jsonl')]
have = set()
for f in glob.glob('harness/checks/*_test.go'):
    have |= set(re.findall(r'^func Test(C\d\d)_', open(f).read(), re.M))
T = json.load(open('tools/techniques.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        t = T[i]
        checks.append({'property': i, 'quick_cmd': f'./check.sh {i}', 'thorough_cmd': f'VERIF_TIER=thorough ./check.sh {i}',
                       'technique': t[0], 'level': 'fault_enumeration' if i == 'C04' else 'exploration', 'level_note': t[1]})
    else:
        na.append({'property': i, 'reason': 'no check has been built for it yet'})
m = {'version': 1, 'setup_cmd': './check.sh setup', 'checks': checks, 'not_applicable': na}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not covered')
