#!/usr/bin/env python3
"""DESIGN.md = tools/DESIGN.head.md with tables generated from properties, props.py, fixed.txt, seeded/"""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS, NOT_APPLICABLE
s = open(V + '/tools/DESIGN.head.md').read()
t = ''
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    t += '### %s %s\n' % (i, p['title'])
    if i in PROPS:
        q = PROPS[i]
        t += 'Decided by the contracts in %s: %s.%s Assumptions: %s.\n\n' % (
            ', '.join('`harness/%s`%s' % (u.split(':')[0], ' (%s)' % u.split(':', 1)[1].replace('|', ', ') if ':' in u else '') for u in q['units']), q.get('note', ''), (' ' + q['how']) if q.get('how') else '', '; '.join(q.get('assumptions', [])) or 'none')
    else:
        t += 'Not claimed: %s.\n\n' % NOT_APPLICABLE.get(i, 'not built yet')
s = s.replace('PROPTABLE', t)
s = s.replace('FIXTABLE', ''.join('* %s `%s`: %s\n' % tuple(l.split(' ', 2)) for l in open(V + '/tools/fixed.txt').read().splitlines() if l.strip()) +
              ''.join('* KNOWN (not repaired) %s: %s\n' % (k['property'], k['what']) for k in json.load(open(V + '/tools/known.json'))))
r = json.load(open(V + '/tools/seed_results.json')) if os.path.exists(V + '/tools/seed_results.json') else {}
s = s.replace('SEEDTABLE', '| bug | property | needs | caught by |\n|---|---|---|---|\n' + ''.join(
    '| %s | %s | %s | %s |\n' % (os.path.basename(d), (m := json.load(open(d + '/meta.json')))['property'], m['needs'], r.get(os.path.basename(d), ''))
    for d in sorted(glob.glob(V + '/seeded/*'))))
open(V + '/DESIGN.md', 'w').write(s)
