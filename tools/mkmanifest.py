#!/usr/bin/env python3
"Write MANIFEST.json from the check modules."
import ast, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    f = os.path.join(V, 'checks', p['id'].lower() + '.py')
    if not os.path.exists(f):
        na.append({'property': p['id'], 'reason': 'check not built yet (work in progress)'})
        continue
    c = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and n.targets[0].id in ('TECHNIQUE', 'LEVEL_NOTE', 'LEVEL'):
            c[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append({'property': p['id'], 'quick_cmd': 'bin/check %s --tier quick' % p['id'],
        'thorough_cmd': 'bin/check %s --tier thorough' % p['id'], 'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': c['TECHNIQUE'], 'level': c.get('LEVEL', 'model_checking'), 'level_note': c['LEVEL_NOTE']})
m = {'version': 1, 'setup_cmd': 'true', 'hooks': {'guard': '', 'enable': 'no hooks are needed: checks copy /repo/postgresql to a scratch directory, rebuild the C extension there and drive it from outside', 'source_commits': []},
    'checks': checks, 'not_applicable': na,
    'notes': 'bin/check PNN runs one check; specifications are in specs/*.tla (TLC), harnesses in checks/.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', [x['property'] for x in na], 'not')
