#!/usr/bin/env python3
# Writes MANIFEST.json from checks.json and properties.jsonl
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
C = json.load(open(V + '/checks.json')); NA = json.load(open(V + '/tools/not_applicable.json'))
P = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': './fv setup', 'checks': [], 'not_applicable': []}
for p in P:
    i = p['id']
    if i in C:
        m['checks'].append({'property': i, 'quick_cmd': './fv check %s quick' % i, 'thorough_cmd': './fv check %s thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
          'technique': 'symbolic execution of the compiled IR of /repo with Z3 (bounded), counterexamples replayed natively', 'level': 'model_checking',
          'level_note': C[i].get('note', '') + ' Every feasible path within the stated bounds; nothing is claimed outside them.'})
    else: m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check built yet (work in progress)')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
