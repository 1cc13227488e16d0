'''Writes tools/design/seeded.md: mkseeded.py LOG with the lines "<bug> <check> rc <n> CAUGHT|MISSED ..." of the runs.'''
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
got = {}
for l in open(sys.argv[1]):
    q = l.split()
    if len(q) > 4 and q[2] == 'rc':
        got.setdefault(q[0], []).append((q[1], q[4]))
out = ['## Planted bugs', '', 'Each is kept in `seeded/<id>` with its demonstration; the check named is the quick one of the property it was written from',
       '(other checks that report it as well are listed where they were run).', '', '| bug | what it breaks | needs | caught by |', '|---|---|---|---|']
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    c = ', '.join(p for p, r in got.get(i, []) if r == 'CAUGHT') or ('**missed** by ' + ', '.join(p for p, _ in got.get(i, [])))
    out.append('| %s | %s | %s | %s |' % (i, m['what_it_breaks'], m['needs'], c))
open(V + '/tools/design/seeded.md', 'w').write('\n'.join(out) + '\n')
