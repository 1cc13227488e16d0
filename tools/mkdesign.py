#!/opt/venv/bin/python
'''Writes DESIGN.md from tools/design/*.md and the texts of the checks.'''
import ast
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS  # noqa

ENG = {'C02': 'A', 'C24': 'C (crash states)', 'C25': 'C (faults)', 'C23': 'C (histories)', 'C29': 'B + C (histories)', 'C26': 'A + B'}
for i in (1, 3, 4, 5, 6, 7, 8, 9, 10):
    ENG['C%02d' % i] = 'A (one schedule per MPI behaviour) + B'
out = []
for p in PROPS:
    i = p['id']
    f = os.path.join(V, 'checks', i.lower() + '.py')
    out.append('### %s %s\n' % (i, p['title']))
    if not os.path.exists(f):
        out.append(p.get('na', 'check not built yet') + '\n')
        continue
    t = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('RULE', 'ASSUMPTIONS'):
            t[n.targets[0].id] = ast.literal_eval(n.value)
    r = t['RULE']
    out.append('*Engine %s.* %s.\n' % (ENG.get(i, 'B'), r[0].upper() + r[1:]))
    out.append('*Bounds:* %s.\n' % p['quantifier']['text'])
    out.append('*Why not tests:* %s\n' % p['why_tests_cant'])
    if t.get('ASSUMPTIONS'):
        out.append('*Assumptions:* %s.\n' % '; '.join(t['ASSUMPTIONS']))
D = os.path.join(V, 'tools', 'design')
txt = open(D + '/head.md').read() + '\n' + '\n'.join(out) + '\n' + open(D + '/tail.md').read()
if os.path.exists(D + '/seeded.md'):
    txt += '\n' + open(D + '/seeded.md').read()
open(os.path.join(V, 'DESIGN.md'), 'w').write(txt)
