#!/usr/bin/env python3
"""writes MANIFEST.json from props.json and properties.jsonl"""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
cfg = json.load(open(f'{H}/props.json'))
props = [json.loads(l) for l in open(f'{H}/properties.jsonl')]
checks, na = [], []
for p in props:
    c = cfg.get(p['id'])
    if not c or c.get('not_applicable'):
        na.append(dict(property=p['id'], reason=(c or {}).get('not_applicable', 'its contracts are not written yet')))
        continue
    checks.append(dict(property=p['id'], quick_cmd=f"python3 check.py {p['id']} --tier quick", thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
        technique='contract-based deductive verification (Verus) of the functions extracted from /repo on every run; failed obligations replayed on generated files',
        level='proof', level_note=c['note'], theorems=c.get('theorems', [])))
hook = json.load(open(f'{H}/hooks.json')) if os.path.exists(f'{H}/hooks.json') else None
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na, notes='See DESIGN.md. Evidence lists, per run, the functions under contract, the discharged obligations and the contracts that are assumed.')
if hook:
    m['hooks'] = hook
json.dump(m, open(f'{H}/MANIFEST.json', 'w'), indent=1)
