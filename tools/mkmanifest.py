import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
LEVEL = json.load(open(V + '/tools/levels.json'))
THM = {k: v.get('theorems', []) for k, v in json.load(open(V + '/contracts/props.json'))['props'].items()}
checks = []
for p in props:
    l = LEVEL[p['id']]
    checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                   'technique': l['technique'], 'level': l['level'], 'level_note': l['note'], **({'theorems': THM[p['id']]} if THM.get(p['id']) and l['level'] == 'proof' else {})})
m = {'version': 1, 'setup_cmd': 'python3 setup.py',
     'hooks': {'guard': 'cfg ronda_verif', 'enable': 'RUSTFLAGS="--cfg ronda_verif"', 'source_commits': ['a26ddb8']},
     'checks': checks, 'not_applicable': LEVEL.get('_na', []), 'notes': LEVEL.get('_notes', '')}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
