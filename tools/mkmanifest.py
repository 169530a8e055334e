#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below; properties without a harness go to not_applicable."""
import json, os, glob, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
exec(open(V + '/tools/claims.py').read())   # CLAIMS: id -> (level, technique, level_note); NOT_APPLICABLE: id -> reason
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMS and (glob.glob(f'{V}/checks/{i}*.cpp') or glob.glob(f'{V}/checks/{i}*.py')):
        lv, tech, note = CLAIMS[i]
        checks.append({'property': i, 'quick_cmd': f'python3 run.py {i}', 'thorough_cmd': f'python3 run.py {i} --thorough',
                       'evidence_file': f'evidence/{i}.json', 'technique': tech, 'level': lv, 'level_note': note})
    else:
        na.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'python3 -c "print(\'checks build what they need\')"',
     'checks': checks, 'not_applicable': na,
     'hooks': HOOKS, 'notes': NOTES}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
