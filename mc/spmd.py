'''Rank programs run on the simulated MPI, and how they are launched.'''
import os
import numpy as np

from . import sim, fsmon
from .core import quiet


def launch(n, fn, args=(), env=None, root=None, policy='low'):
    return sim.Sim(n, fn, args, env, root, policy).run()


def fit(comm, cls, data, p, w, kw=None):
    from . import api
    import warnings
    warnings.simplefilter('ignore')
    s = api.fit(data, dict(p), w, cls, comm, **(kw or {}))
    return api.attrs(s)


ENVS = [
    {},
    {'assoc': -1, 'p2p_send': 'eager', 'p2p_deliver': 'early', 'anysrc': 'high'},
]
