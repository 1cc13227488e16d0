'''C10: parallel POD equals serial POD.'''
import os
import numpy as np
import yaml

from mc import api, cmp, gen, ref, spmd
from mc.core import Rep, quiet
from checks.c01 import tree

PROP = 'C10'
LEVEL = 'model_checking'
RULE = ('every problem shape x option x rank count: fit, coefficients and reconstruction run on the simulated MPI with the '
        'real code and are compared with the serial run: eigenvalues on every rank, files, modes and coefficients up to '
        'the sign of each mode, mean and reconstruction')
ASSUMPTIONS = ['MPI is simulated (mc/fake/mpi4py, mc/sim.py); conformance with the installed Open MPI is checked by C02']

SHAPES = [([7], 1, True), ([7], 1, False), ([4, 3], 2, True), ([2, 5], 1, False), ([1], 1, True), ([3], 5, True), ([2, 2, 3], 2, True),
          ([2, 3], 1, True), ([11, 9], 1, True), ([2, 3, 2, 4], 2, True)]
OPTS = {
    'base': {'n_modes_save': 3}, 'all': {}, 'nm1': {'n_modes_save': 1}, 'zero': {'n_modes_save': 4, 'mean_type': 'zero'},
    'single': {'n_modes_save': 2, 'dtype': 'single'}, 'flatw': {'n_modes_save': 2, '_flat': 1}, 'now': {'n_modes_save': 2, '_w': None},
    'split': {'n_modes_save': 2, '_split': [3, 7]}, 'xr': {'n_modes_save': 2, '_xr': True}, 'int': {'n_modes_save': 2, '_int': True},
    'normw': {'n_modes_save': 2, 'normalize_weights': True}, 'sel': {'n_modes_save': 4, '_sel': [2, 0]},
    'over': {'n_modes_save': 50},
}
TIMES = [None, 'all', 'half', [0, 1, 1], [-1]]
TIMES9 = [None, 'all', 'half', [0, 4, 3], [8]]
NT = 9


def plan(tier, seed):
    ranks = [1, 2, 3, 5] if tier == 'quick' else list(range(1, 10))
    items = [('t_pod', [s, o, ranks]) for s in range(8) for o in OPTS]
    # short and long series, more points than snapshots
    items += [('t_pod', [s, o, [2, 3] if tier == 'quick' else ranks, nt]) for s, o, nt in (
        (0, 'all', 2), (2, 'base', 2), (0, 'over', 3), (2, 'all', 12), (5, 'zero', 12), (6, 'normw', 24), (0, 'split', 40), (3, 'single', 40),
        (8, 'all', 24), (8, 'int', 31), (9, 'all', 9), (9, 'base', 14), (2, 'base', 150), (0, 'over', 203))]
    return items


def make(seed, si, opt, NT=NT):
    xshape, nv, axis = SHAPES[si]
    o = dict(OPTS[opt])
    data = gen.field(seed, NT, xshape, nv, 'real', axis)
    if o.pop('_int', False):
        data = np.round(data * 8).astype(np.int64)
    w = gen.wdict(gen.weights(seed, xshape, nv))
    if '_w' in o:
        w = o.pop('_w')
    if o.pop('_flat', 0):
        w = gen.wdict(w['weights'].ravel())
    split = o.pop('_split', None)
    lst = [data] if split is None else np.split(data, split)
    if o.pop('_xr', False):
        import xarray as xr
        lst = [xr.DataArray(a) for a in lst]
    return lst, data, w, o, len(xshape), nv


def program(comm, lst, data, p, w, sel, times):
    s = api.POD(params=p, weights=w, comm=comm)
    s.fit(lst)
    f, c = s.compute_coeffs_op(data, s._savedir_sim, modes_idx=sel)
    out = {'eigs': np.array(s.eigs), 'nt': s.nt, 'nx': s.nx, 'nv': s.nv, 'xshape': tuple(s.xshape), 'n_modes_save': s.n_modes_save,
           'paths': [os.path.relpath(q, s.savedir) for q in (s._savedir_sim, f, c)], 'rec': []}
    for t in times:
        g, h = s.compute_reconstruction(c, time_idx=t)
        if comm:
            comm.Barrier()
        out['rec'].append(np.load(g))
        out['paths'].append(os.path.relpath(g, s.savedir))
        if comm:
            comm.Barrier()
    return out


def load(d):
    out = {}
    for f in tree(d):
        q = os.path.join(d, f)
        if f.endswith('.npy'):
            out[f] = np.load(q)
        elif f.endswith('.npz'):
            with np.load(q) as z:
                for k in z.files:
                    out[f + ':' + k] = z[k]
        else:
            with open(q) as h:
                out[f] = yaml.load(h, Loader=yaml.FullLoader)
    return out


def t_pod(ctx, si, opt, ranks, NT=NT):
    rep = Rep()
    lst, data, w, o, xdim, nv = make(ctx.seed, si, opt, NT)
    TIMES_ = TIMES9 if NT == 9 else TIMES
    sel = o.pop('_sel', None)
    tol = 1e-8 if opt != 'single' else 2e-3

    def prm(d):
        return dict(o, time_step=0.5, n_space_dims=xdim, n_variables=nv, savedir=d)
    with ctx.tmp() as d, quiet():
        exp = program(None, lst, data, prm(d + '/ser'), w, sel, TIMES_)
        fe = load(d + '/ser')
        lam = exp['eigs'].real
        for n in ranks:
            tag = d + '/par%d' % n
            r = spmd.launch(n, program, (lst, data, prm(tag), w, sel, TIMES_), env=spmd.ENVS[n % len(spmd.ENVS)], root=d)
            at = 'shape %r, %d snapshots, option %s, %d ranks: ' % (SHAPES[si], NT, opt, n)
            rep.case('%d/%s/%d/%d' % (si, opt, n, NT), shape=SHAPES[si], option=opt, ranks=n)
            rep.transitions += r.mpi_ops + len(r.events)
            rep.states += r.mpi_ops + len(r.events) + 1
            if not r.ok():
                rep.bad('run', at + r.describe())
                return rep
            for k, v in enumerate(r.values):
                for q in ('nt', 'nx', 'nv', 'xshape', 'n_modes_save', 'paths'):
                    if v[q] != exp[q]:
                        rep.bad(q, at + 'rank %d: %s is %r, serially %r' % (k, q, v[q], exp[q]))
                if not cmp.close(v['eigs'], exp['eigs'], tol):
                    rep.bad('eigs', at + 'rank %d: eigenvalues: %s' % (k, cmp.err(v['eigs'], exp['eigs'])))
                for t, a, b in zip(TIMES_, v['rec'], exp['rec']):
                    if not cmp.close(a, b, tol):
                        rep.bad('reconstruction', at + 'rank %d, times %r: reconstruction: %s' % (k, t, cmp.err(a, b)))
            fp = load(tag)
            if set(fp) != set(fe):
                rep.bad('files', at + 'files differ from the serial ones: %r' % sorted(set(fp) ^ set(fe)))
                return rep
            for f in sorted(fe):
                a, b = fp[f], fe[f]
                if isinstance(b, dict):
                    for q in set(a) | set(b):
                        if q not in ('coeffs_dir', 'savedir', 'results_folder') and a.get(q) != b.get(q):
                            rep.bad('params', at + '%s: %s is %r, serially %r' % (f, q, a.get(q), b.get(q)))
                    continue
                if a.shape != b.shape or a.dtype != b.dtype:
                    rep.bad('type', at + '%s: %r %s, serially %r %s' % (f, a.shape, a.dtype, b.shape, b.dtype))
                    continue
                base = os.path.basename(f)
                if base in ('modes.npy', 'modes_r.npy', 'coeffs.npy'):
                    ids = list(range(len(lam))) if (sel is None or base == 'modes.npy') else sel
                    for m in range(a.shape[0 if base == 'coeffs.npy' else -1]):
                        x, y = (a[m], b[m]) if base == 'coeffs.npy' else (a[..., m], b[..., m])
                        if ref.separated(lam, ids[m], 1e-5):
                            gap = min(abs(lam[ids[m]] - lam[j]) for j in range(len(lam)) if j != ids[m])
                            if not ref.mode_distance(y, x) <= tol * max(1, lam[0] / gap, lam[0] / lam[ids[m]]):
                                rep.bad('modes', at + '%s: mode %d differs by %.3g' % (f, m, ref.mode_distance(y, x)))
                elif not cmp.close(a, b, tol):
                    rep.bad('values', at + '%s: %s' % (f, cmp.err(a, b)))
            if rep.viol:
                return rep
    return rep
