#!/usr/bin/env python3
"""writes MANIFEST.json and known_findings.json from props.py and the lists below"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
T = 'contract-based deductive verification: contracts over the LLVM IR of the current source, VCs discharged by z3/cvc5 (own verifier, /verif/vf)'
checks = []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s' % i, thorough_cmd='python3-vt check.py %s --thorough' % i,
                           technique=p.get('technique', T), level=p.get('level', 'proof'),
                           level_note=(p.get('note', '') + '. Assumes: ' + '; '.join(p.get('assumptions', [])) + '. Trusts clang 18, the vf verifier, z3, cvc5' +
                                       ('; ' + '; '.join(p['trusted']) if p.get('trusted') else '') + '.')))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, 'not built yet')) for i in ids if i not in PROPS]
json.dump(dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=checks, not_applicable=na,
               notes='No hooks in /repo: contracts live in /verif/harness and include the sources of /repo.'),
          open(V + '/MANIFEST.json', 'w'), indent=1)
FIXED = [l.split(' ', 2) for l in open(V + '/tools/fixed.txt').read().splitlines() if l.strip()]
KNOWN = json.load(open(V + '/tools/known.json'))
json.dump({'findings': [dict(kind='fixed', property=p, entry='fixed: property=%s %s %s' % (p, c, w)) for p, c, w in FIXED] +
           [dict(kind='known', **k) for k in KNOWN]}, open(V + '/known_findings.json', 'w'), indent=1)
