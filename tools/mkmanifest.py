#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from plan import PLAN, NA
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'tools/setup.sh',
     'hooks': {'guard': 'cfg(liso_verif)', 'enable': 'RUSTFLAGS="--cfg liso_verif" with LISO_VERIF_DIR=/verif/hooks and LISO_VERIF_GEN=/verif/build/gen (tools/check.py does this)', 'source_commits': ['25114ab']},
     'checks': [], 'not_applicable': []}
for i in ids:
    if i in PLAN:
        p = PLAN[i]
        m['checks'].append({'property': i, 'quick_cmd': 'tools/check.py %s --tier quick' % i, 'thorough_cmd': 'tools/check.py %s --tier thorough' % i,
            'technique': p.get('technique', 'contract-based deductive verification (Verus) of functions extracted from /repo on every run'), 'level': p['level'], 'level_note': p['note']})
    else: m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'not covered yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
