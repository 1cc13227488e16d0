'''C32: a fit reports about itself what it did.'''
import itertools
import os
import numpy as np
import yaml

from mc import api, cmp, gen, ref, spmd
from mc.core import Rep, quiet

PROP = 'C32'
LEVEL = 'model_checking'
RULE = ('all sequences of operations on one object (fits of two different data sets, coefficients of all frequencies, of a band, '
        'of chosen modes, reconstruction) up to a depth, for batch, streaming and POD; one fit for each shape x presentation '
        '(array with or without variable axis, several arrays, xarray, netCDF, MATLAB) x options x rank count; after each '
        'operation everything the object reports is compared with what was asked, with what it returned and with its files')
ASSUMPTIONS = ['MPI is simulated (mc/fake/mpi4py, mc/sim.py); conformance with the installed Open MPI is checked by C02']

SHAPES = [((4,), 1, True), ((4,), 1, False), ((2, 3), 2, True), ((1,), 1, False), ((2, 2, 2), 1, False), ((3, 1), 3, True), ((1, 2, 3), 2, True)]
PRES = ['array', 'arrays', 'xarray', 'nc', 'mat']
OPTS = [{}, {'overlap': 50}, {'n_modes_save': 99}, {'fullspectrum': True}, {'n_modes_save': 1, 'dtype': 'single'}, {'n_dft': 5, 'overlap': 50, 'n_modes_save': 2},
        {'n_dft': 7}, {'normalize_weights': True}]
OPS = ['fitA', 'fitB', 'all', 'band', 'modes', 'rec']


def plan(tier, seed):
    depth = 5 if tier == "quick" else 6
    items = [('t_seq', [cls, [a, b], depth]) for cls in ('Standard', 'Streaming') for a in ('fitA', 'fitB') for b in OPS[:5]]
    items += [('t_one', [si, pr]) for si in range(len(SHAPES)) for pr in PRES[:3]]
    items += [('t_pod', [si]) for si in range(len(SHAPES))]
    ranks = [1, 2, 3] if tier == 'quick' else [1, 2, 3, 4, 5]
    items += [('t_par', [si, ranks]) for si in range(len(SHAPES))]
    return items


def present(d, x, shape, nv, axis, pr):
    '''-> list to fit, keywords, None if it cannot be given this way.'''
    if pr in ('array', 'arrays', 'xarray') and not axis:
        x = x[..., 0]
    if pr == 'array':
        return [x], {}
    if pr == 'arrays':
        k = len(x) // 3
        return [x[:k], x[k:k + 1], x[k + 1:]], {}
    if pr == 'xarray':
        import xarray as xr
        return [xr.DataArray(x)], {}
    if pr == 'nc':
        import xarray as xr
        vs = ['u', 'p', 'w'][:nv]
        f = os.path.join(d, 'x.nc')
        xr.Dataset({v: (('time',) + tuple('zyx'[:len(shape)]), x[..., j]) for j, v in enumerate(vs)},
                   coords={'time': np.arange(len(x)) * 0.25}).to_netcdf(f)
        return [f], {'variables': vs}
    if len(shape) != 3:
        return None, None
    import h5py
    out = []
    for t in range(len(x)):
        f = os.path.join(d, 'm%03d.mat' % t)
        with h5py.File(f, 'w') as h:
            h['q'] = np.moveaxis(x[t], -1, 0)
        out.append(f)
    return out, {}


def is_int(v):
    return isinstance(v, (int, np.integer)) and not isinstance(v, bool)


def report(s):
    '''what a fitted SPOD says about itself.'''
    r = {k: getattr(s, k) for k in ('dim', 'nt', 'nx', 'nv', 'xdim', 'n_freq', 'dt', 'n_dft', 'n_blocks', 'n_modes', 'n_modes_save',
                                    'modes_dir', 'savedir_sim')}
    r['shape'], r['xshape'] = tuple(s.shape), tuple(s.xshape)
    r['eigs'], r['freq'], r['weights'] = np.array(s.eigs), np.array(s.freq), np.array(s.weights)
    return r


def expect(shape, nv, nt, p):
    n = p['n_dft']
    k = ref.n_overlap(n, p.get('overlap', 0))
    nb = (nt - k) // (n - k)
    return {'dim': len(shape) + 2, 'nt': nt, 'nx': int(np.prod(shape)), 'nv': nv, 'xdim': len(shape), 'xshape': tuple(shape),
            'n_freq': n if p.get('fullspectrum') else n // 2 + 1, 'dt': p['time_step'], 'n_dft': n, 'n_blocks': nb,
            'n_modes_save': min(p.get('n_modes_save', nb), nb)}


def described(rep, at, r, e, p, w, full=True, streaming=False):
    for k, v in e.items():
        if isinstance(v, tuple):
            ok = r[k] == v
        elif k == 'dt':
            ok = float(r[k]) == v
        else:
            ok = is_int(r[k]) and r[k] == v
        if not ok:
            rep.bad(k, at + '%s is %r instead of %r' % (k, r[k], v))
            return False
    if r['shape'][1:] != e['xshape'] + (e['nv'],) or r['shape'][0] not in (1, e['nt']):
        rep.bad('shape', at + 'shape is %r for data of shape %r' % (r['shape'], (e['nt'],) + e['xshape'] + (e['nv'],)))
        return False
    cols = e['n_modes_save'] if streaming else e['n_blocks']
    if r['eigs'].shape != (e['n_freq'], cols) or r['n_modes'] != cols or r['freq'].shape != (e['n_freq'],):
        rep.bad('n_modes', at + 'eigenvalues of shape %r, n_modes %r, frequencies of shape %r, for %d frequencies and %d modes' % (
            r['eigs'].shape, r['n_modes'], r['freq'].shape, e['n_freq'], cols))
        return False
    d = r['savedir_sim']
    home = os.path.realpath(p['savedir'])
    if not os.path.isdir(d) or not os.path.realpath(d).startswith(home + os.sep) or not os.path.isdir(r['modes_dir']) or \
            os.path.dirname(os.path.realpath(r['modes_dir'])) != os.path.realpath(d):
        rep.bad('savedir_sim', at + 'results in %r, modes in %r, for savedir %r' % (d, r['modes_dir'], home))
        return False
    with np.load(os.path.join(d, 'eigs_freq.npz')) as z:
        if not np.array_equal(z['eigs'], r['eigs']) or not np.array_equal(z['freq'], r['freq']):
            rep.bad('files', at + 'the eigenvalues or frequencies reported are not those in %s' % d)
            return False
    with open(os.path.join(d, 'params_modes.yaml')) as f:
        q = yaml.load(f, Loader=yaml.FullLoader)
    for k in ('n_dft', 'n_freq', 'n_blocks', 'n_modes_save'):
        if q.get(k) != r[k]:
            rep.bad('files', at + 'stored %s is %r, the object says %r' % (k, q.get(k), r[k]))
            return False
    # options given come back as given, and the time step and overlap are those used
    told = dict({k: v for k, v in p.items() if k in ('n_space_dims', 'n_variables', 'overlap', 'c_level', 'mean_type', 'fullspectrum', 'normalize_weights',
                                                     'normalize_data', 'dtype')}, time_step=p['time_step'],
                n_overlap=ref.n_overlap(p['n_dft'], p.get('overlap', 0)))
    for k, v in told.items():
        if k not in q or q[k] != v:
            rep.bad('files', at + 'stored %s is %r, it is %r' % (k, q.get(k), v))
            return False
    if os.path.realpath(q.get('results_folder', '')) != os.path.realpath(d):
        rep.bad('files', at + 'results_folder is %r, the object says %r' % (q.get('results_folder'), d))
        return False
    sw = np.load(os.path.join(d, 'weights.npy'))
    if sw.size != e['nx'] * e['nv'] or (w is not None and not cmp.close(sw.ravel(), w.ravel(), 1e-6)):
        rep.bad('weights', at + 'stored weights have shape %r or are not those given' % (sw.shape,))
        return False
    if full and (r['weights'].size != sw.size or not np.array_equal(r['weights'].ravel(), sw.ravel())):
        rep.bad('weights', at + 'the weights reported (shape %r) are not those stored' % (r['weights'].shape,))
        return False
    return True


class Model:
    '''the expected state of one object.'''

    def __init__(self, d, seed, cls):
        self.d, self.cls = d, cls
        self.x = {'fitA': gen.field(seed, 17, (2, 3), 1), 'fitB': gen.field(seed, 22, (2, 2), 1)}
        self.w = {}
        self.p = api.params(n_dft=4, dt=0.1, xdim=2, nv=1, savedir=d, overlap=50, n_modes_save=3)
        self.s = None
        self.fit = self.coef = self.rec = None

    def step(self, rep, at, op):
        if op in self.x:
            if self.s is None:
                self.s = getattr(api, self.cls)(params=self.p, weights=None)
            out = self.s.fit([self.x[op]])
            if out is not self.s:
                rep.bad('fit', at + 'fit does not return the object')
                return False
            self.fit, self.coef, self.rec = op, None, None
        elif op == 'rec':
            out = self.s.compute_reconstruction(self.coef[1], time_idx='all')
            self.rec = out
        else:
            kw = {'all': {}, 'band': {'T_lb': .2, 'T_ub': .4}, 'modes': {'modes_idx': [1]}}[op]
            out = self.s.compute_coeffs_op(self.x[self.fit], self.s.savedir_sim, **kw)
            self.coef = tuple(out) + (op, len(self.x[self.fit]))
        return True

    def check(self, rep, at):
        x = self.x[self.fit]
        if not described(rep, at, report(self.s), expect(x.shape[1:3], 1, len(x), self.p), self.p, np.ones(x[0].size), True,
                         self.cls == 'Streaming'):
            return False
        if self.s.comm is not None:
            rep.bad('comm', at + 'communicator %r in a serial fit' % (self.s.comm,))
            return False
        for f in range(3):
            m = np.array(self.s.get_modes_at_freq(f))
            if m.shape != x.shape[1:] + (3,):
                rep.bad('modes', at + 'modes of shape %r for data of shape %r' % (m.shape, x.shape))
                return False
        if self.coef:
            f, d, op, nt = self.coef
            lb, ub = (1, 2) if op == 'band' else (0, 2)
            nm = 1 if op == 'modes' else 3
            if self.s.file_coeffs != f or not os.path.isfile(f) or os.path.dirname(f) != d:
                rep.bad('file_coeffs', at + 'file_coeffs is %r, returned was %r' % (self.s.file_coeffs, f))
                return False
            if (self.s.freq_idx_lb, self.s.freq_idx_ub) != (lb, ub):
                rep.bad('freq_idx', at + 'frequencies %r to %r reported for coefficients of %d to %d' % (
                    self.s.freq_idx_lb, self.s.freq_idx_ub, lb, ub))
                return False
            c = np.load(f)
            if c.shape != ((ub - lb + 1) * nm, nt):
                rep.bad('file_coeffs', at + 'file_coeffs holds an array of shape %r' % (c.shape,))
                return False
            with open(os.path.join(d, 'params_coeffs.yaml')) as g:
                q = yaml.load(g, Loader=yaml.FullLoader)
            fr = np.array(self.s.freq)
            want = {'freq_idx_lb': lb, 'freq_idx_ub': ub, 'freq_lb': fr[lb], 'freq_ub': fr[ub], 'n_freq_r': ub - lb + 1,
                    'modes_idx': [1] if op == 'modes' else None, 'coeffs_dir': d}
            for k, v in want.items():
                if q.get(k) != v:
                    rep.bad('params_coeffs', at + 'stored %s is %r instead of %r' % (k, q.get(k), v))
                    return False
        if self.rec:
            f, d = self.rec
            if self.s.file_dynamics != f or not os.path.isfile(f) or os.path.dirname(f) != d:
                rep.bad('file_dynamics', at + 'file_dynamics is %r, returned was %r' % (self.s.file_dynamics, f))
                return False
            if np.load(f, mmap_mode='r').shape[0] != self.coef[3]:
                rep.bad('file_dynamics', at + 'file_dynamics holds an array of shape %r' % (np.load(f).shape,))
                return False
        return True


def t_seq(ctx, cls, first, depth):
    '''all sequences that start with the given operations; each is run from a new object, its prefixes are checked on the way.'''
    rep = Rep()
    with ctx.tmp() as top, quiet():
        for n, rest in enumerate(itertools.product(OPS, repeat=depth - 2)):
            seq = list(first) + list(rest)
            # a reconstruction needs coefficients of the current fit
            ok, co = True, False
            for o in seq:
                co = False if o in ('fitA', 'fitB') else (co or o != 'rec')
                ok = ok and (o != 'rec' or co)
            if not ok:
                continue
            rep.case('s%s/%s' % (cls, '-'.join(seq)), sequence=seq)
            m = Model(os.path.join(top, 'r%d' % n), ctx.seed, cls)
            for i, o in enumerate(seq):
                at = '%s after %s: ' % (cls, ', '.join(seq[:i + 1]))
                if not m.step(rep, at, o) or not m.check(rep, at):
                    return rep
    return rep


def t_one(ctx, si, pr):
    rep = Rep()
    shape, nv, axis = SHAPES[si]
    for oi, o in enumerate(OPTS):
        for cls in ('Standard', 'Streaming'):
            for ws in (None, 1):
                if cls == 'Streaming' and o.get('normalize_weights'):
                    continue
                nt = 23 + oi
                x = gen.field(ctx.seed, nt, shape, nv)
                w = gen.weights(ctx.seed, shape, nv) if ws else None
                with ctx.tmp() as d, quiet():
                    lst, kw = present(d, x, shape, nv, axis, pr)
                    if lst is None:
                        continue
                    p = api.params(**dict({'n_dft': 6, 'dt': 0.1 if ws else 0.25, 'xdim': len(shape), 'nv': nv, 'savedir': os.path.join(d, 'r', 'q')}, **o))
                    at = '%s, shape %r, given as %s, options %r, weights %r: ' % (cls, SHAPES[si], pr, o, bool(ws))
                    rep.case('o%d/%s/%d/%s/%r' % (si, pr, oi, cls, ws), shape=shape, given=pr, options=o)
                    s = api.fit(lst, p, gen.wdict(w) if ws else None, getattr(api, cls), None, **kw)
                    e = expect(shape, nv, nt, p)
                    wt = None if o.get('normalize_weights') else (w if ws else np.ones(shape + (nv,)))
                    if not described(rep, at, report(s), e, p, wt, True, cls == 'Streaming'):
                        return rep
    return rep


def t_pod(ctx, si):
    rep = Rep()
    shape, nv, axis = SHAPES[si]
    for nt in (3, 8):
        for nm in (1, 2, nt, 99, None):
            for pr in ('array', 'arrays', 'xarray'):
                for dtype in ('double', 'single'):
                    x = gen.field(ctx.seed, nt, shape, nv)
                    w = gen.weights(ctx.seed, shape, nv)
                    with ctx.tmp() as d, quiet():
                        lst, _ = present(d, x, shape, nv, axis, pr)
                        p = {'time_step': 0.3, 'n_space_dims': len(shape), 'n_variables': nv, 'savedir': os.path.join(d, 'r', 'q'), 'dtype': dtype}
                        if nm is not None:
                            p['n_modes_save'] = nm
                        at = 'POD, shape %r, %d snapshots given as %s, %r modes, %s: ' % (SHAPES[si], nt, pr, nm, dtype)
                        rep.case('p%d/%d/%s/%s/%s' % (si, nt, pr, nm, dtype), shape=shape, given=pr)
                        lst = [a for a in lst if len(a)]
                        s = api.POD(params=p, weights=gen.wdict(w))
                        if s.fit(lst) is not s:
                            rep.bad('fit', at + 'fit does not return the object')
                            return rep
                        want = {'dim': len(shape) + 2, 'nt': nt, 'nx': int(np.prod(shape)), 'nv': nv, 'xdim': len(shape),
                                'xshape': shape, 'dt': 0.3, 'n_modes_save': min(nm or 10 ** 9, nt)}
                        for k, v in want.items():
                            g = getattr(s, k)
                            if (tuple(g) if k == 'xshape' else g) != v:
                                rep.bad(k, at + '%s is %r instead of %r' % (k, g, v))
                                return rep
                        if tuple(s.shape)[1:] != shape + (nv,):
                            rep.bad('shape', at + 'shape is %r' % (s.shape,))
                            return rep
                        if os.path.realpath(s.savedir) != os.path.realpath(p['savedir']):
                            rep.bad('savedir', at + 'savedir is %r' % s.savedir)
                            return rep
                        found = [r for r, _, fs in os.walk(s.savedir) if 'eigs.npz' in fs]
                        if len(found) != 1:
                            rep.bad('savedir', at + 'results in %r' % found)
                            return rep
                        with open(os.path.join(found[0], 'params_modes.yaml')) as f:
                            q = yaml.load(f, Loader=yaml.FullLoader)
                        for k, v in p.items():
                            if k not in ('savedir', 'n_modes_save') and q.get(k) != v:
                                rep.bad('files', at + 'stored %s is %r, it is %r' % (k, q.get(k), v))
                                return rep
                        with np.load(os.path.join(found[0], 'eigs.npz')) as z:
                            if not np.array_equal(z['eigs'], s.eigs) or len(s.eigs) != nt:
                                rep.bad('eigs', at + 'eigenvalues reported are not those stored')
                                return rep
                        sw = np.load(os.path.join(found[0], 'weights.npy'))
                        if not np.array_equal(sw.ravel(), np.ravel(s.weights)) or not cmp.close(sw.ravel(), w.ravel(), 1e-6):
                            rep.bad('weights', at + 'weights reported are not those given or stored')
                            return rep
    return rep


def program(comm, lst, p, w, kw, cls):
    s = api.fit(list(lst), dict(p), w, getattr(api, cls), comm, **kw)
    if s.comm is not comm:
        raise AssertionError('the communicator reported is not the one given')
    return report(s)


def t_par(ctx, si, ranks):
    rep = Rep()
    shape, nv, axis = SHAPES[si]
    nt = 23
    x = gen.field(ctx.seed, nt, shape, nv)
    w = gen.weights(ctx.seed, shape, nv)
    for pr in PRES:
        for cls in ('Standard', 'Streaming'):
            for n in ranks:
                for oi in ((0, 4) if pr == 'array' else (0,)):
                    if pr == 'nc' and cls == 'Streaming' or pr == 'mat' and len(shape) != 3:
                        continue
                    with ctx.tmp() as d, quiet():
                        lst, kw = present(d, x, shape, nv, axis, pr)
                        o = dict(OPTS[oi])
                        if pr in ('nc', 'mat'):
                            o.update(savefreq_disk=False, savefreq_disk2=cls == 'Standard')
                        p = api.params(**dict({'n_dft': 6, 'dt': 0.25, 'xdim': len(shape), 'nv': nv, 'savedir': os.path.join(d, 'r', 'q')}, **o))
                        at = '%s on %d ranks, shape %r, given as %s, options %r: ' % (cls, n, SHAPES[si], pr, o)
                        rep.case('r%d/%s/%s/%d/%d' % (si, pr, cls, n, oi), shape=shape, given=pr, ranks=n)
                        kw = kw if cls == 'Standard' else {}
                        r = spmd.launch(n, program, (lst, p, gen.wdict(w), kw, cls), root=d)
                        if not r.ok():
                            rep.bad('run', at + r.describe())
                            return rep
                        e = expect(shape, nv, nt, p)
                        for k, v in enumerate(r.values):
                            if not described(rep, at + 'rank %d: ' % k, v, e, p, w, n == 1, cls == 'Streaming'):
                                return rep
                        if sum(v['weights'].size for v in r.values) != e['nx'] * nv:
                            rep.bad('weights', at + 'the ranks hold %r weights of %d' % ([v['weights'].size for v in r.values], e['nx'] * nv))
                            return rep
    return rep
