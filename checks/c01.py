'''C01: a fit on any number of ranks returns and stores the results of the serial fit.'''
import os
from mc import api, cmp, gen, spmd
from mc.core import Rep, quiet

PROP = 'C01'
LEVEL = 'model_checking'
RULE = ('every combination of problem shape x rank count (1 .. more ranks than points) x one deviation from the '
        'default parameters (mean, overlap, spectrum, weights, normalisation, dtype, number of modes, splits, savefft); '
        'each is run as one process per rank on the simulated MPI with the real code and compared with a serial fit: '
        'returned attributes on every rank, stored eigenvalues, frequencies, weights, mean, parameters, file names, '
        'and every well separated mode up to its phase')
ASSUMPTIONS = ['MPI is simulated (mc/fake/mpi4py, mc/sim.py); conformance with the installed Open MPI is checked by C02',
               'file-system operations of different ranks are executed in one representative order here; C02 explores the others']

SHAPES = [([7], 1, True), ([7], 1, False), ([4, 3], 2, True), ([2, 5], 1, False), ([2, 2, 3], 2, True), ([1], 1, True),
          ([3], 5, True), ([3, 3], 3, True), ([131], 2, True), ([9, 26], 1, True), ([2, 2, 5, 2], 2, True)]
SMALL = 8      # shapes that get all options
OPTS = {
    'base': {},
    'full': {'fullspectrum': True},
    'block': {'mean_type': 'blockwise'},
    'zero': {'mean_type': 'zero'},
    'novl': {'overlap': 0},
    'ovl75': {'overlap': 75},
    'odd': {'n_dft': 5},
    'nm1': {'n_modes_save': 1},
    'nm2': {'n_modes_save': 2},
    'normd': {'normalize_data': True},
    'normw': {'normalize_weights': True},
    'single': {'dtype': 'single'},
    'fft': {'savefft': True},
    'flatw': {'_flat': 1},
    'now': {'_w': None},
    'split': {'_split': [3, 10]},
    'complex': {'_kind': 'complex'},
    'xr': {'_xr': True},
    'nodisk': {'savefreq_disk': False},
    # many frequencies; many blocks and modes
    'long': {'_nt': 330, 'n_dft': 208}, 'longfull': {'_nt': 250, 'n_dft': 102, 'fullspectrum': True, 'savefft': True},
    'many': {'_nt': 63, 'n_dft': 5, 'overlap': 0}, 'manyfft': {'_nt': 130, 'n_dft': 4, 'overlap': 75, 'savefft': True, 'n_modes_save': 11},
}


def plan(tier, seed):
    ranks = [1, 2, 3, 4, 5, 8] if tier == 'quick' else list(range(1, 13))
    items = []
    for si, sh in enumerate(SHAPES):
        for o in OPTS:
            if (si >= SMALL and o not in ('base', 'complex', 'split', 'many')) or (si in (2, 4, 5, 7) and o.startswith(('long', 'many'))):
                continue
            items.append(('t_fit', [si, o, ranks]))
    return items


def make(seed, si, opt):
    import numpy as np
    xshape, nv, axis = SHAPES[si]
    o = dict(OPTS[opt])
    kind = o.pop('_kind', 'real')
    data = gen.field(seed, o.pop('_nt', 21), xshape, nv, kind, axis or nv > 1)
    w = gen.wdict(gen.weights(seed, xshape, nv))
    if '_w' in o:
        w = o.pop('_w')
    if o.pop('_flat', 0):
        w = gen.wdict(w['weights'].ravel())
    split = o.pop('_split', None)
    lst = [data] if split is None else np.split(data, split)
    if o.pop('_xr', False):
        import xarray as xr
        lst = [xr.DataArray(a) for a in lst]
    p = {'n_dft': 6, 'overlap': 50}
    p.update(o)
    return lst, w, p, len(xshape), nv


def t_fit(ctx, si, opt, ranks):
    rep = Rep()
    lst, w, o, xdim, nv = make(ctx.seed, si, opt)
    rtol, mrtol = (1e-9, 1e-7) if opt != 'single' else (3e-4, 3e-3)
    disk = opt != 'nodisk'
    with ctx.tmp() as d, quiet():
        s = api.fit(lst, api.params(dt=0.5, xdim=xdim, nv=nv, savedir=d + '/ser', **o), w)
        a = api.attrs(s)
        sst = api.stored(a['dir'], modes=disk)
        names = tree(d + '/ser')
        for n in ranks:
            tag = 'par%d' % n
            env = spmd.ENVS[n % len(spmd.ENVS)]
            r = spmd.launch(n, spmd.fit, (api.Standard, lst, api.params(
                dt=0.5, xdim=xdim, nv=nv, savedir=os.path.join(d, tag), **o), w), env=env, root=d)
            rep.case('%d/%s/%d' % (si, opt, n), shape=SHAPES[si], option=opt, ranks=n)
            rep.transitions += r.mpi_ops + len(r.events)
            rep.states += r.mpi_ops + len(r.events) + 1
            at = 'shape %r, option %s, %d ranks: ' % (SHAPES[si], opt, n)
            if not r.ok():
                rep.bad('run', at + r.describe())
                return rep
            for i, v in enumerate(r.values):
                for k, m in cmp.spod_attrs(v, a, rtol):
                    rep.bad(k, at + 'rank %d: ' % i + m)
                if v['dir'].replace(tag, 'ser') != a['dir']:
                    rep.bad('dir', at + 'results in %s, serial results in %s' % (v['dir'], a['dir']))
            if tree(os.path.join(d, tag)) != names:
                rep.bad('files', at + 'files %r instead of %r' % (tree(os.path.join(d, tag)), names))
                return rep
            st = api.stored(r.values[0]['dir'], modes=disk)
            for k, m in cmp.spod_stored(st, sst, rtol, mrtol):
                rep.bad(k, at + m)
            for k in set(sst['params']) | set(st['params']):
                if k not in ('savedir', 'results_folder') and st['params'].get(k) != sst['params'].get(k):
                    rep.bad('params', at + 'stored parameter %s is %r instead of %r' % (
                        k, st['params'].get(k), sst['params'].get(k)))
            if rep.viol:
                return rep
    return rep


def tree(d):
    out = []
    for b, _, fs in os.walk(d):
        out += [os.path.relpath(os.path.join(b, f), d) for f in fs]
    return sorted(out)
