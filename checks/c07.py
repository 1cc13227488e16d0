'''C07: a fit from files with per-mode output equals the in-memory fit.'''
import os
import numpy as np

from mc import api, cmp, gen, spmd
from mc.core import Rep, quiet

PROP = 'C07'
LEVEL = 'model_checking'
RULE = ('every data set (netCDF splits, MATLAB files, shapes, variables) x option x rank count; each fit reads the files '
        'and writes one file per mode on the simulated MPI; returned and stored results are compared with a serial fit '
        'of the same numbers in memory, well separated modes up to phase')
ASSUMPTIONS = ['MPI is simulated (mc/fake/mpi4py, mc/sim.py); conformance with the installed Open MPI is checked by C02']

# kind, splits, shape, variables
SRC = [('nc', [21], (3, 2), 1), ('nc', [9, 12], (5,), 2), ('nc', [4, 10, 7], (2, 2, 2), 1), ('nc', [10, 11], (2,), 1),
       ('nc', [20, 1], (2, 3), 2), ('mat', [21], (2, 3, 1), 2), ('mat', [21], (2, 2, 2), 1),
       # many snapshots
       ('nc', [150, 150, 30], (3,), 1), ('mat', [60], (2, 1, 2), 1)]
LONG = 7
OPTS = {
    'base': {}, 'nm1': {'n_modes_save': 1}, 'nm2': {'n_modes_save': 2}, 'full': {'fullspectrum': True},
    'block': {'mean_type': 'blockwise'}, 'zero': {'mean_type': 'zero'}, 'normw': {'normalize_weights': True},
    'normd': {'normalize_data': True}, 'single': {'dtype': 'single'}, 'odd': {'n_dft': 5}, 'novl': {'overlap': 0},
    'long': {'n_dft': 208, 'n_modes_save': 1}, 'longfull': {'n_dft': 104, 'fullspectrum': True}, 'many': {'n_dft': 5, 'overlap': 0},
    'now': {'_w': None}, 'flatw': {'_flat': 1}, 'nodisk': {'savefreq_disk2': False}, 'clevel': {'conf_level': 0.8}, 'fw': {'_flat': 2},
}
OPTQ = ['base', 'nm1', 'nm2', 'full', 'block', 'normw', 'single', 'odd', 'now']


def plan(tier, seed):
    ranks = [1, 2, 3, 4, 5] if tier == 'quick' else [1, 2, 3, 4, 5, 6, 7, 8]
    return [('t_fit', [i, o, ranks if tier != 'quick' or i < 2 or o in ('base', 'nm2') else ranks[i % 2::2]])
            for i in range(len(SRC)) for o in OPTS
            if (i == LONG and o in ('base', 'long', 'longfull', 'many')) or (i > LONG and o in ('base', 'many')) or
            (i < LONG and o not in ('long', 'longfull', 'many'))]


def program(comm, files, p, w, kw):
    s = api.fit(list(files), dict(p), w, api.Standard, comm, **kw)
    a = api.attrs(s)
    if p.get('savefreq_disk2'):
        a['read'] = [np.array(s.get_modes_at_freq(f)) for f in range(s.n_freq)]
    return a


def files_of(d, i, seed):
    kind, splits, shape, nv = SRC[i]
    nt = sum(splits)
    x = gen.field(seed, nt, shape, nv, 'real', True)
    out = []
    if kind == 'nc':
        import xarray as xr
        vs = ['u', 'p', 'w'][:nv]
        t = 0
        for k, m in enumerate(splits):
            f = os.path.join(d, 'in%d.nc' % k)
            xr.Dataset({v: (('time',) + tuple('zyx'[:len(shape)]), x[t:t + m, ..., j]) for j, v in enumerate(vs)},
                       coords={'time': np.arange(t, t + m) * 0.25}).to_netcdf(f)
            out.append(f)
            t += m
        return out, x, {'variables': vs}
    import h5py
    for t in range(nt):
        f = os.path.join(d, 'm%03d.mat' % t)
        with h5py.File(f, 'w') as h:
            h['q'] = np.moveaxis(x[t], -1, 0)
        out.append(f)
    return out, x, {}


def t_fit(ctx, i, opt, ranks):
    rep = Rep()
    kind, splits, shape, nv = SRC[i]
    o = dict(OPTS[opt], n_dft=OPTS[opt].get('n_dft', 6))
    o.setdefault('overlap', 50)
    w = gen.wdict(gen.weights(ctx.seed, shape, nv))
    if '_w' in o:
        w = o.pop('_w')
    fl = o.pop('_flat', 0)
    if fl:
        w = gen.wdict(w['weights'].ravel() if fl == 1 else np.asfortranarray(w['weights']))
    rtol, mrtol = (1e-9, 1e-7) if opt != 'single' else (1e-3, 5e-3)
    with quiet(), ctx.tmp() as d:
        files, x, kw = files_of(d, i, ctx.seed)
        os.mkdir(d + '/run')
        so = {k: v for k, v in o.items() if k != 'savefreq_disk2'}
        ref, _ = api.serial([x], api.params(dt=0.5, xdim=len(shape), nv=nv, savedir=d + '/ser', **so), w)
        disk2 = o.pop('savefreq_disk2', True)
        for n in ranks:
            env = {'p2p_send': ('rendezvous', 'eager')[n % 2], 'p2p_deliver': ('late', 'early')[n // 2 % 2], 'assoc': 1 - 2 * (n % 2)}
            r = spmd.launch(n, program, (files, api.params(dt=0.5, xdim=len(shape), nv=nv, savedir='%s/run/p%d' % (d, n),
                            savefreq_disk=False, savefreq_disk2=disk2, **o), w, kw), env=env, root=d + '/run')
            at = 'files %r, option %s, %d ranks: ' % (SRC[i], opt, n)
            rep.case('%d/%s/%d' % (i, opt, n), source=SRC[i], option=opt, ranks=n)
            rep.transitions += r.mpi_ops + len(r.events)
            rep.states += r.mpi_ops + len(r.events) + 1
            if not r.ok():
                rep.bad('run', at + r.describe())
                return rep
            for k, v in enumerate(r.values):
                for key, m in cmp.spod_attrs(v, ref, rtol):
                    rep.bad(key, at + 'rank %d: ' % k + m)
            st = api.stored(r.values[0]['dir'], modes=disk2)
            for q in ('weights', 'ltm'):
                st[q] = st[q].reshape(ref['stored'][q].shape) if st[q].size == ref['stored'][q].size else st[q]
            e = dict(ref['stored'])
            if not disk2:
                e['modes'] = []
            for key, m in cmp.spod_stored(st, e, rtol, mrtol):
                rep.bad(key, at + m)
            if disk2:
                nf, nm = ref['n_freq'], ref['n_modes_save']
                cnt = len(os.listdir(os.path.join(r.values[0]['dir'], 'modes')))
                if cnt != nf * nm:
                    rep.bad('files', at + '%d mode files for %d frequencies and %d modes' % (cnt, nf, nm))
                for k, v in enumerate(r.values):
                    for f in range(nf):
                        if not np.array_equal(v['read'][f], st['modes'][f], equal_nan=True):
                            rep.bad('read', at + 'rank %d read other modes right after the fit' % k)
                            break
            for k in ('n_freq', 'time_step', 'n_dft', 'n_blocks', 'n_overlap', 'n_modes_save'):
                if st['params'].get(k) != ref['stored']['params'].get(k):
                    rep.bad('params', at + 'stored parameter %s is %r instead of %r' % (
                        k, st['params'].get(k), ref['stored']['params'].get(k)))
            if rep.viol:
                return rep
    return rep
