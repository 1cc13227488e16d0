'''C09: a parallel streaming fit gives the results of the serial streaming fit.'''
import os
from mc import api, cmp, gen, spmd
from mc.core import Rep, quiet
from checks.c01 import tree

PROP = 'C09'
LEVEL = 'model_checking'
RULE = ('every problem shape x option x rank count: the streaming fit runs on the simulated MPI with the real code (in memory and from MATLAB files) and is '
        'compared with the serial streaming fit: attributes on every rank, file names, stored arrays, parameters, and '
        'every well separated mode up to phase')
ASSUMPTIONS = ['MPI is simulated (mc/fake/mpi4py, mc/sim.py); conformance with the installed Open MPI is checked by C02']

SHAPES = [([7], 1, True), ([7], 1, False), ([4, 3], 2, True), ([2, 5], 1, False), ([1], 1, True), ([3], 5, True), ([2, 2, 3], 2, True), ([2, 1, 2, 3], 2, True)]
OPTS = {
    'base': {}, 'full': {'fullspectrum': True}, 'novl': {'overlap': 0}, 'ovl66': {'overlap': 66}, 'odd': {'n_dft': 5},
    'nm1': {'n_modes_save': 1}, 'nm2': {'n_modes_save': 2}, 'single': {'dtype': 'single'}, 'flatw': {'_flat': 1},
    'now': {'_w': None}, 'split': {'_split': [3, 10]}, 'complex': {'_kind': 'complex'}, 'xr': {'_xr': True},
    'long': {'_nt': 330, 'n_dft': 208}, 'longfull': {'_nt': 210, 'n_dft': 102, 'fullspectrum': True, 'n_modes_save': 1},
    'many': {'_nt': 63, 'n_dft': 5, 'overlap': 0, 'n_modes_save': 12},
    'int': {'_int': True}, 'normw': {'normalize_weights': True}, 'zero': {'mean_type': 'zero'}, 'nm9': {'n_modes_save': 9},
}

MAT = [((2, 3, 1), 2), ((2, 2, 2), 1), ((1, 5, 1), 1), ((3, 1, 2), 3)]


def plan(tier, seed):
    ranks = [1, 2, 3, 5] if tier == 'quick' else list(range(1, 9))
    # (no variance of a single value)
    items = [('t_fit', [s, o, ranks]) for s in range(len(SHAPES)) for o in OPTS
             if not (o.startswith(('long', 'many')) and s not in (0, 3)) and not (o == 'normw' and SHAPES[s][0] == [1])]
    return items + [('t_mat', [i, o, ranks]) for i in range(len(MAT)) for o in ('base', 'full', 'odd', 'nm1', 'single', 'now', 'flatw', 'novl')]


def t_mat(ctx, i, opt, ranks):
    '''snapshots from MATLAB files: points are distributed across the axes.'''
    import h5py
    import numpy as np
    rep = Rep()
    shape, nv = MAT[i]
    o = dict({'n_dft': 6, 'overlap': 50}, **OPTS[opt])
    x = gen.field(ctx.seed, 16, shape, nv)
    w = gen.wdict(gen.weights(ctx.seed, shape, nv))
    if '_w' in o:
        w = o.pop('_w')
    if o.pop('_flat', 0):
        w = gen.wdict(w['weights'].ravel())
    rtol, mrtol = (1e-8, 1e-6) if opt != 'single' else (1e-3, 1e-2)
    with ctx.tmp() as d, quiet():
        a, _ = api.serial([x], api.params(dt=0.5, xdim=3, nv=nv, savedir=d + '/ser', **o), w, api.Streaming)
        os.mkdir(d + '/in')
        files = []
        for t in range(len(x)):
            files.append('%s/in/m%03d.mat' % (d, t))
            with h5py.File(files[-1], 'w') as h:
                h['q'] = np.moveaxis(x[t], -1, 0)
        for n in ranks:
            tag = 'par%d' % n
            env = spmd.ENVS[n % len(spmd.ENVS)]
            r = spmd.launch(n, spmd.fit, (api.Streaming, files, api.params(
                dt=0.5, xdim=3, nv=nv, savedir=os.path.join(d, tag), savefreq_disk=False, **o), w), env=env, root=d)
            rep.case('m%d/%s/%d' % (i, opt, n), source=MAT[i], option=opt, ranks=n)
            rep.transitions += r.mpi_ops + len(r.events)
            rep.states += r.mpi_ops + len(r.events) + 1
            at = 'MATLAB files of shape %r, option %s, %d ranks: ' % (MAT[i], opt, n)
            if not r.ok():
                rep.bad('run', at + r.describe())
                return rep
            for k, v in enumerate(r.values):
                for key, m in cmp.spod_attrs(v, a, rtol):
                    rep.bad(key, at + 'rank %d: ' % k + m)
            st = api.stored(r.values[0]['dir'])
            for q in ('weights', 'ltm'):
                st[q] = st[q].reshape(a['stored'][q].shape) if st[q].size == a['stored'][q].size else st[q]
            for key, m in cmp.spod_stored(st, a['stored'], rtol, mrtol, lam=abs(a['stored']['eigs']) ** 2):
                rep.bad(key, at + m)
            if rep.viol:
                return rep
    return rep


def make(seed, si, opt):
    import numpy as np
    xshape, nv, axis = SHAPES[si]
    o = dict(OPTS[opt])
    data = gen.field(seed, o.pop('_nt', 19), xshape, nv, o.pop('_kind', 'real'), axis)
    if o.pop('_int', False):
        data = np.round(data * 8).astype(np.int64)
    w = gen.wdict(gen.weights(seed, xshape, nv))
    if '_w' in o:
        w = o.pop('_w')
    if o.pop('_flat', 0):
        w = gen.wdict(w['weights'].ravel())
    split = o.pop('_split', None)
    lst = [data] if split is None else np.split(data, split)
    if o.pop('_xr', False):
        import xarray as xr
        lst = [xr.DataArray(a) for a in lst]
    p = {'n_dft': 6, 'overlap': 50}
    p.update(o)
    return lst, w, p, len(xshape), nv


def t_fit(ctx, si, opt, ranks):
    rep = Rep()
    lst, w, o, xdim, nv = make(ctx.seed, si, opt)
    rtol, mrtol = (1e-8, 1e-6) if opt != 'single' else (1e-3, 1e-2)
    with ctx.tmp() as d, quiet():
        a, _ = api.serial(lst, api.params(dt=0.5, xdim=xdim, nv=nv, savedir=d + '/ser', **o), w, api.Streaming)
        names = tree(d + '/ser')
        for n in ranks:
            tag = 'par%d' % n
            env = spmd.ENVS[n % len(spmd.ENVS)]
            r = spmd.launch(n, spmd.fit, (api.Streaming, lst, api.params(
                dt=0.5, xdim=xdim, nv=nv, savedir=os.path.join(d, tag), **o), w), env=env, root=d)
            rep.case('%d/%s/%d' % (si, opt, n), shape=SHAPES[si], option=opt, ranks=n)
            rep.transitions += r.mpi_ops + len(r.events)
            rep.states += r.mpi_ops + len(r.events) + 1
            at = 'shape %r, option %s, %d ranks: ' % (SHAPES[si], opt, n)
            if not r.ok():
                rep.bad('run', at + r.describe())
                return rep
            for i, v in enumerate(r.values):
                for k, m in cmp.spod_attrs(v, a, rtol):
                    rep.bad(k, at + 'rank %d: ' % i + m)
            if tree(os.path.join(d, tag)) != names:
                rep.bad('files', at + 'files %r instead of %r' % (tree(os.path.join(d, tag)), names))
                return rep
            st = api.stored(r.values[0]['dir'])
            for k, m in cmp.spod_stored(st, a['stored'], rtol, mrtol, lam=abs(a['stored']['eigs']) ** 2):
                rep.bad(k, at + m)
            for k in set(a['stored']['params']) | set(st['params']):
                if k not in ('savedir', 'results_folder') and st['params'].get(k) != a['stored']['params'].get(k):
                    rep.bad('params', at + 'stored parameter %s is %r instead of %r' % (
                        k, st['params'].get(k), a['stored']['params'].get(k)))
            if rep.viol:
                return rep
    return rep
