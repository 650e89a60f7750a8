"""writes MANIFEST.json from properties.jsonl and claims.json (run by hand; the result is committed)"""
import json
claims = json.load(open('/verif/claims.json'))
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks, na = [], []
for p in props:
    c = claims.get(p['id'])
    if c is None or c.get('na'): na.append({'property': p['id'], 'reason': (c or {}).get('na', 'no check yet')}); continue
    checks.append({'property': p['id'], 'quick_cmd': 'python3-vt /verif/check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3-vt /verif/check.py %s --tier thorough' % p['id'],
                   'technique': c.get('technique', 'contract-based deductive verification (symbolic execution of the real Python source against sidecar contracts, z3/cvc5), with bounded contract evaluation on the real code as counterexample search'),
                   'level': c.get('level', 'proof'), 'level_note': c['note']})
json.dump({'version': 1, 'setup_cmd': 'bash /verif/setup.sh', 'checks': checks, 'not_applicable': na, 'notes': claims.get('notes', '')}, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', [n['property'] for n in na])
