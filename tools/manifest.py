#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = []
for i, p in sorted(props.PROPS.items()):
    c.append({'property': i, 'quick_cmd': 'VERIF_TIER=quick python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
              'technique': p.get('technique', 'contract-based deductive verification (Verus) of the extracted source'), 'level': p['level'], 'level_note': p['note']})
hooks = getattr(props, 'HOOKS', None)
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': c, 'not_applicable': getattr(props, 'NA', []),
     'notes': 'Contracts in contracts/*.vspec are woven by vx into the source of /repo on every run; see DESIGN.md.'}
if hooks:
    m['hooks'] = hooks
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
