'''Runs programs of mc.progs on the real mpi4py (started by mpiexec): realrun.py SPEC OUTDIR'''
import os
import pickle
import sys

spec = pickle.load(open(sys.argv[1], 'rb'))
sys.dont_write_bytecode = True
sys.path.insert(0, spec['repo'])
sys.path.insert(0, spec['verif'])
import warnings  # noqa
warnings.simplefilter('ignore')
from mpi4py import MPI  # noqa
out = os.dup(1)
nul = os.open(os.devnull, os.O_WRONLY)
os.dup2(nul, 1)
os.dup2(nul, 2)
from mc import progs  # noqa
c = MPI.COMM_WORLD
res = []
for i, (name, kw) in enumerate(spec['programs']):
    d = os.path.join(sys.argv[2], 'p%02d' % i)
    try:
        res.append(('done', getattr(progs, name)(c, d, **kw)))
    except BaseException as e:  # noqa
        res.append(('exc', repr(e)))
        break
    with open(os.path.join(sys.argv[2], 'res%d.pkl' % c.rank), 'wb') as f:
        pickle.dump(res, f)
with open(os.path.join(sys.argv[2], 'res%d.pkl' % c.rank), 'wb') as f:
    pickle.dump(res, f)
if res[-1][0] == 'exc':
    c.Abort(3)
