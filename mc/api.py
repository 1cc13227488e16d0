'''Driving pyspod through its public interface and reading back what it stored.'''
import os
import numpy as np
import yaml

from pyspod.spod.standard import Standard
from pyspod.spod.streaming import Streaming
from pyspod.pod.standard import Standard as POD
import pyspod.spod.utils as spod_utils
import pyspod.utils.parallel as par
import pyspod.utils.postproc as post
import pyspod.utils.weights as wts
import pyspod.utils.reader as reader
import pyspod.utils.io as pio
import pyspod.utils.errors as errs
import pyspod.pod.utils as pod_utils

from .core import quiet


def params(n_dft=4, dt=1.0, xdim=1, nv=1, savedir=None, **kw):
    p = {'n_dft': n_dft, 'time_step': dt, 'n_space_dims': xdim, 'n_variables': nv, 'savedir': savedir}
    p.update(kw)
    return p


def modes_list(sim, n_freq):
    return [np.array(sim.get_modes_at_freq(f)) for f in range(n_freq)]


def fit(data_list, p, weights=None, cls=Standard, comm=None, **kw):
    s = cls(params=p, weights=weights, comm=comm)
    s.fit(data_list, **kw)
    return s


def attrs(s):
    d = {'eigs': np.array(s.eigs), 'freq': np.array(s.freq), 'n_blocks': s.n_blocks, 'n_modes_save': s.n_modes_save,
         'n_freq': s.n_freq, 'nt': s.nt, 'nx': s.nx, 'nv': s.nv, 'xshape': tuple(s.xshape), 'dir': s.savedir_sim,
         'n_modes': s.n_modes}
    return d


def stored(d, modes=True):
    '''everything a fit leaves in its results directory, read with plain numpy.'''
    out = {}
    with np.load(os.path.join(d, 'eigs_freq.npz')) as z:
        for k in z.files:
            out[k] = z[k]
    out['weights'] = np.load(os.path.join(d, 'weights.npy'))
    out['ltm'] = np.load(os.path.join(d, 'ltm_modes.npy'))
    with open(os.path.join(d, 'params_modes.yaml')) as f:
        out['params'] = yaml.load(f, Loader=yaml.FullLoader)
    out['modes'] = []
    if modes:
        out['modes'] = [np.array(post.get_modes_at_freq(d, i)) for i in range(len(out['freq']))]
    return out


def serial(data_list, p, weights=None, cls=Standard, **kw):
    with quiet():
        s = fit(data_list, p, weights, cls, **kw)
        a = attrs(s)
        st = stored(a['dir'])
    a['stored'] = st
    return a, s
