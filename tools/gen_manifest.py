#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property the harness registers."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'fault': 'fault injection at system calls with an offline checker of what is stored afterwards',
 'hist': 'runtime monitoring of generated operation histories against a model',
 'conc': 'recorded concurrent histories of goroutines and processes, checked offline (linearizability, order, conservation)',
 'oracle': 'runtime monitor: generated and hostile workloads judged by an independent oracle',
}
tech = {}
for l in open(os.path.join(here, 'tools/techniques.txt')):
    if l.strip():
        k, lv, kind, note = l.rstrip('\n').split('|')
        tech[k] = (lv, T.get(kind, kind), note)
src = ''.join(open(os.path.join(here, 'harness', f)).read() for f in sorted(os.listdir(os.path.join(here, 'harness'))) if f.endswith('.go'))
have = sorted(set(re.findall(r'ID: "(C\d\d)"', src)))
props = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
checks = []
for p in props:
    if p not in have:
        continue
    lv, t, note = tech[p]
    checks.append({'property': p, 'quick_cmd': f'bash check.sh {p}', 'thorough_cmd': f'VERIF_TIER=thorough bash check.sh {p}',
                   'evidence_file': f'evidence/{p}.json', 'technique': t, 'level': lv, 'level_note': note})
na = [{'property': p, 'reason': 'its monitor is not finished'} for p in props if p not in have]
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
