#!/opt/venv/bin/python
'''Writes properties.jsonl and MANIFEST.json from the table in tools/props.py.'''
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS  # noqa

PY = '/opt/venv/bin/python'
checks, na = [], []
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        o = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        f.write(json.dumps(o) + '\n')
        if os.path.exists(os.path.join(V, 'checks', p['id'].lower() + '.py')):
            cmd = '%s check.py %s' % (PY, p['id'])
            checks.append({'property': p['id'], 'quick_cmd': cmd + ' quick', 'thorough_cmd': cmd + ' thorough',
                           'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
        else:
            na.append({'property': p['id'], 'reason': p.get('na', 'check not built yet')})
m = {'version': 1, 'setup_cmd': PY + ' tools/setup.py',
     'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the checks replace mpi4py and wrap the file-system '
               'functions from outside', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'See DESIGN.md.  check.py ID [quick|thorough] runs one check; check.py --replay FILE repeats a violation.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
