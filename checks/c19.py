'''C19: results depend on the numbers in the data, not on how they are presented.'''
import itertools
import os
import numpy as np
import xarray as xr

from mc import api, cmp, gen, ref, spmd
from mc.core import Rep, quiet

PROP = 'C19'
LEVEL = 'model_checking'
RULE = ('every shape x data kind x presentation (element type, byte order, memory order, strided view, memory map, labelled '
        'array, lazy netCDF variable, with or without trailing axis, bare or in a list, every split into up to three pieces, '
        'mixed pieces) x algorithm (batch, streaming, POD, both projections and reconstruction): results against those of '
        'the canonical presentation')
SHAPES = [((4,), 1), ((2, 3), 1), ((3, 2), 2), ((2, 2, 2), 1), ((1,), 1), ((2,), 3)]
ALGOS = ['batch', 'stream', 'pod', 'op', 'conv', 'podc']
NT = 13


def plan(tier, seed):
    items = [('t_forms', [s, k, a]) for s in range(len(SHAPES)) for k in ('real', 'complex') for a in ALGOS
             if not (a.startswith('pod') and k == 'complex')]
    items += [('t_splits', [s, k, a, m]) for s in ((0, 2) if tier == 'quick' else range(len(SHAPES))) for k in ('real', 'complex')
              for a in ('batch', 'stream', 'pod') for m in range(4) if not (a == 'pod' and k == 'complex')]
    items += [('t_par', [s, k, a]) for s in (0, 2, 3) for k in ('real', 'complex') for a in ALGOS if not (a.startswith('pod') and k == 'complex')]
    items += [('t_far', [k, a, n]) for k in ('real', 'complex') for a in ALGOS for n in ((600,) if tier == 'quick' else (600, 1500))
              if not (a.startswith('pod') and k == 'complex')]
    return items


def t_far(ctx, kind, algo, nt):
    '''a long series far from zero whose numbers are exact in single precision.'''
    rep = Rep()
    with ctx.tmp() as d, quiet():
        r = gen.rng('c19far', ctx.seed, kind, nt)
        x = 300. + r.integers(-99, 100, (nt, 4, 1)) / 64.
        if kind == 'complex':
            x = x + 1j * (r.integers(-99, 100, x.shape) / 64. - 200)
        w = gen.wdict(gen.weights(ctx.seed, (4,), 1))
        low = x.astype(np.complex64 if kind == 'complex' else np.float32)
        for mt in ('longtime', 'blockwise', 'zero'):
            if mt != 'longtime' and algo != 'batch':
                continue
            p = api.params(n_dft=nt // 4, dt=0.5, xdim=1, nv=1, overlap=40, n_modes_save=2, mean_type=mt)
            fitdir = None
            if algo in ('op', 'conv'):
                fitdir = api.fit([x], dict(p, savedir=d + '/fit'), w).savedir_sim
            elif algo == 'podc':
                api.fit([x], dict(p, savedir=d + '/fit'), w, api.POD)
                fitdir = os.path.join(d, 'fit', 'modes2')
            fits = algo in ('batch', 'stream', 'pod')
            e = run(algo, d + '/base', [x] if fits else x, p, w, fitdir)
            for name, v in (('single', low), ('single-swapped', low.astype(low.dtype.newbyteorder())),
                            ('single-F', np.asfortranarray(low))):
                at = '%s, %d snapshots of %s data around 300 presented as %s, mean %s: ' % (algo, nt, kind, name, mt)
                rep.case('far/%s/%s/%d/%s/%s' % (algo, kind, nt, name, mt), algo=algo, form=name, nt=nt)
                try:
                    g = run(algo, d + '/r', [v] if fits else v, p, w, fitdir)
                except Exception as ex:
                    rep.bad('raised', at + 'raised %s: %s' % (type(ex).__name__, ex))
                    return rep
                if not same(rep, at, g, e, 1e-10):
                    return rep
    return rep


def base(seed, si, kind, nt=NT):
    '''integer-valued data: exactly the same numbers in every element type.'''
    shape, nv = SHAPES[si]
    r = gen.rng('c19', seed, si, kind)
    x = r.integers(-9, 10, (nt,) + shape + (nv,)).astype(float)
    if kind == 'complex':
        x = x + 1j * r.integers(-9, 10, x.shape)
    return x


def forms(x, nv, d):
    '''name, presentation of x (nt, *shape, nv), relative precision.'''
    c = np.iscomplexobj(x)
    dims = ['time'] + ['x%d' % i for i in range(x.ndim - 2)] + ['v']
    out = [('C', x, 1e-10), ('F', np.asfortranarray(x), 1e-10), ('swapped', x.astype(x.dtype.newbyteorder()), 1e-10)]
    big = np.zeros(tuple(2 * s for s in x.shape), dtype=x.dtype)
    view = big[tuple(np.s_[::2] for _ in x.shape)]
    view[...] = x
    out.append(('strided', view, 1e-10))
    rev = np.ascontiguousarray(x[::-1])[::-1]
    out.append(('reversed', rev, 1e-10))
    ro = x.copy()
    ro.flags.writeable = False
    out.append(('readonly', ro, 1e-10))
    f = os.path.join(d, 'in.npy')
    np.save(f, x)
    out.append(('memmap', np.load(f, mmap_mode='r'), 1e-10))
    out.append(('xarray', xr.DataArray(x, dims=dims), 1e-10))
    out.append(('xarray-coords', xr.DataArray(x, dims=dims, coords={'time': np.arange(len(x)) * 0.5 + 3}), 1e-10))
    out.append(('moved', np.moveaxis(np.ascontiguousarray(np.moveaxis(x, 0, -1)), -1, 0), 1e-10))
    low = [('float32', np.float32), ('int64', np.int64), ('int32', np.int32), ('int8', np.int8), ('int16-swapped', '>i2'), ('longdouble', np.longdouble)]
    if c:
        low = [('complex64', np.complex64), ('clongdouble', np.clongdouble)]
    for name, t in low:
        out.append((name, x.astype(t), 1e-10))
    if not c:
        f = os.path.join(d, 'in.nc')
        xr.Dataset({'q': (tuple(dims), x)}).to_netcdf(f)
        out.append(('lazy', xr.open_dataset(f)['q'], 1e-10))
        out.append(('ascomplex', x.astype(complex), 1e-10))
        out.append(('xarray-int', xr.DataArray(x.astype(int), dims=dims), 1e-10))
    if nv == 1:
        out += [(n + '-noaxis', v[..., 0], t) for n, v, t in list(out)]
    return out


def run(algo, d, x, p, w, fitdir):
    '''results of one algorithm for one presentation; x is a list for the fits.'''
    if algo in ('batch', 'stream'):
        a, s = api.serial(x, dict(p, savedir=d), w, api.Standard if algo == 'batch' else api.Streaming)
        st = a['stored']
        return {'vals': {'eigs': a['eigs'], 'freq': a['freq'], 'ltm': st['ltm'], 'weights': st['weights'], 'nt': a['nt'],
                         'isreal': len(a['freq'])}, 'modes': st['modes'], 'lam': np.abs(a['eigs'])}
    if algo == 'pod':
        s = api.fit(x, dict(p, savedir=d), w, api.POD)
        m = np.load(os.path.join(s._savedir_sim if not hasattr(s, 'savedir_sim') else s.savedir_sim, 'modes.npy'))
        e = np.asarray(s.eigs)
        return {'vals': {'eigs': e}, 'modes': [m], 'lam': np.abs(e)[None]}
    out = {}
    fn = {'op': api.spod_utils.compute_coeffs_op, 'conv': api.spod_utils.compute_coeffs_conv, 'podc': api.pod_utils.compute_coeffs_op}[algo]
    rec = (api.pod_utils if algo == 'podc' else api.spod_utils).compute_reconstruction
    f, c = fn(data=x, results_dir=fitdir)
    r, _ = rec(coeffs_dir=c, time_idx='all')
    return {'vals': {'coeffs': np.load(f), 'ltm': np.load(c + '/ltm.npy'), 'rec': np.load(r)}, 'modes': [np.load(c + '/modes_r.npy')], 'lam': None}


def same(rep, at, g, e, tol):
    for k, v in e['vals'].items():
        sc = max(np.abs(v).max(), 1e-30)
        if not cmp.close(g['vals'][k], v, tol * 10, sc):
            rep.bad(k, at + '%s: %s' % (k, cmp.err(g['vals'][k], v)))
            return False
    for f, m in enumerate(e['modes']):
        if g['modes'][f].shape != m.shape:
            rep.bad('modes', at + 'modes have shape %r instead of %r' % (g['modes'][f].shape, m.shape))
            return False
        if e['lam'] is None:
            if not cmp.close(g['modes'][f], m, 1e-12):
                rep.bad('modes', at + 'stored modes differ: ' + cmp.err(g['modes'][f], m))
                return False
            continue
        lam = e['lam'][f]
        for j in range(m.shape[-1]):
            if lam[0] > 1e-6 * e['lam'].max() and ref.separated(lam, j, 1e-3):
                q = ref.mode_distance(m[..., j], g['modes'][f][..., j])
                if not q < tol * 1e5 * lam[0] / lam[j]:
                    rep.bad('modes', at + 'mode %d at frequency %d differs by %.3g' % (j, f, q))
                    return False
    return True


def setup(ctx, d, si, kind):
    shape, nv = SHAPES[si]
    x = base(ctx.seed, si, kind)
    w = gen.wdict(gen.weights(ctx.seed, shape, nv))
    p = api.params(n_dft=5, dt=0.5, xdim=len(shape), nv=nv, overlap=40, n_modes_save=2)
    return shape, nv, x, w, p


def t_forms(ctx, si, kind, algo):
    rep = Rep()
    with ctx.tmp() as d, quiet():
        shape, nv, x, w, p = setup(ctx, d, si, kind)
        fitdir = None
        if algo in ('op', 'conv'):
            fitdir = api.fit([x], dict(p, savedir=d + '/fit'), w).savedir_sim
        elif algo == 'podc':
            s = api.fit([x], dict(p, savedir=d + '/fit'), w, api.POD)
            fitdir = os.path.join(d, 'fit', 'modes2')
        fits = algo in ('batch', 'stream', 'pod')
        e = run(algo, d + '/base', [x] if fits else x, p, w, fitdir)
        for name, v, tol in forms(x, nv, d):
            wraps = [('list', [v])]
            if fits:
                wraps += [('bare', v), ('tuple', None)]
            for wn, data in wraps:
                if wn == 'tuple':
                    continue
                if name == 'ascomplex' and algo == 'pod':
                    continue
                at = '%s, shape %r, %s data presented as %s (%s): ' % (algo, SHAPES[si], kind, name, wn)
                rep.case('%s/%d/%s/%s/%s' % (algo, si, kind, name, wn), algo=algo, shape=shape, form=name)
                try:
                    g = run(algo, d + '/r', data if fits else v, p, w, fitdir)
                except Exception as ex:
                    rep.bad('raised', at + 'raised %s: %s' % (type(ex).__name__, ex))
                    return rep
                if not same(rep, at, g, e, tol if algo in ('op', 'conv', 'podc') else 1e-10):
                    return rep
        if fits:      # presentations of the weights
            ww = w['weights']
            ws = [('F', np.asfortranarray(ww)), ('flat', ww.ravel()), ('swapped', ww.astype(ww.dtype.newbyteorder())), ('list', ww.tolist()),
                  ('strided', np.repeat(ww, 2, axis=0)[::2])]
            if nv == 1:
                ws.append(('noaxis', ww[..., 0]))
            for name, v in ws:
                at = '%s, shape %r, %s data, weights presented as %s: ' % (algo, SHAPES[si], kind, name)
                rep.case('%s/%d/%s/w%s' % (algo, si, kind, name), algo=algo, shape=shape, weights=name)
                try:
                    g = run(algo, d + '/r', [x], p, gen.wdict(v), fitdir)
                except Exception as ex:
                    rep.bad('raised', at + 'raised %s: %s' % (type(ex).__name__, ex))
                    return rep
                if not same(rep, at, g, e, 1e-10):
                    return rep
    return rep


def t_splits(ctx, si, kind, algo, part):
    '''every split into up to three pieces, the pieces presented in turn in different ways.'''
    rep = Rep()
    with ctx.tmp() as d, quiet():
        shape, nv, x, w, p = setup(ctx, d, si, kind)
        e = run(algo, d + '/base', [x], p, w, None)
        cuts = [()] + [(i,) for i in range(1, NT)] + list(itertools.combinations(range(1, NT), 2)) + [tuple(range(1, NT))]
        dims = ['time'] + ['x%d' % i for i in range(x.ndim - 2)] + ['v']
        ways = [lambda v: v, lambda v: xr.DataArray(v, dims=dims), lambda v: v.astype(np.complex64 if kind == 'complex' else np.int16),
                lambda v: np.asfortranarray(v.astype(v.dtype.newbyteorder())), lambda v: v.astype(np.complex64 if kind == 'complex' else np.float32)]
        for k, c in enumerate(cuts):
            if k % 4 != part:
                continue
            b = [0] + list(c) + [NT]
            for mix in (0, 1):
                pieces = [ways[(i + k // 4) % len(ways) if mix else 0](x[b[i]:b[i + 1]]) for i in range(len(b) - 1)]
                at = '%s, shape %r, %s data in pieces of %r snapshots%s: ' % (algo, SHAPES[si], kind, [len(q) for q in pieces],
                                                                         ' of different kinds' if mix else '')
                rep.case('%s/%d/%s/%r/%d' % (algo, si, kind, c, mix), algo=algo, shape=shape, cuts=c)
                try:
                    g = run(algo, d + '/r', pieces, p, w, None)
                except Exception as ex:
                    rep.bad('raised', at + 'raised %s: %s' % (type(ex).__name__, ex))
                    return rep
                if not same(rep, at, g, e, 1e-10):
                    return rep
        if kind == 'complex' and part == 0 and algo != 'pod':
            # only some pieces have an imaginary part
            for c in (1, 5, NT - 1):
                for first in (True, False):
                    y = x.copy()
                    if first:
                        y[:c] = y[:c].real
                    else:
                        y[c:] = y[c:].real
                    e2 = run(algo, d + '/base', [y], p, w, None)
                    pcs = [y[:c].real if first else y[:c], y[c:] if first else y[c:].real]
                    at = '%s, shape %r, complex data with a real %s piece (cut %d): ' % (algo, SHAPES[si], 'first' if first else 'last', c)
                    rep.case('%s/%d/half/%d/%d' % (algo, si, c, first), algo=algo, shape=shape)
                    g = run(algo, d + '/r', pcs, p, w, None)
                    if not same(rep, at, g, e2, 1e-10):
                        return rep
    return rep


def program(comm, algo, data, p, w, d, fitdir):
    if algo in ('batch', 'stream', 'pod'):
        s = api.fit(data, dict(p, savedir=d), w, {'batch': api.Standard, 'stream': api.Streaming, 'pod': api.POD}[algo], comm)
        return {'eigs': np.array(s.eigs)}
    fn = {'op': api.spod_utils.compute_coeffs_op, 'conv': api.spod_utils.compute_coeffs_conv, 'podc': api.pod_utils.compute_coeffs_op}[algo]
    rec = (api.pod_utils if algo == 'podc' else api.spod_utils).compute_reconstruction
    f, c = fn(data=data[0], results_dir=fitdir, comm=comm)
    r, _ = rec(coeffs_dir=c, time_idx='all', comm=comm)
    return {'coeffs': np.load(f), 'ltm': np.load(c + '/ltm.npy'), 'rec': np.load(r)}


def t_par(ctx, si, kind, algo):
    """the same on simulated ranks."""
    rep = Rep()
    with ctx.tmp() as d, quiet():
        shape, nv, x, w, p = setup(ctx, d, si, kind)
        fitdir = None
        if algo in ('op', 'conv'):
            fitdir = api.fit([x], dict(p, savedir=d + '/fit'), w).savedir_sim
        elif algo == 'podc':
            api.fit([x], dict(p, savedir=d + '/fit'), w, api.POD)
            fitdir = os.path.join(d, 'fit', 'modes2')
        e = run(algo, d + '/base', [x] if not fitdir else x, p, w, fitdir)['vals']
        for name, v, tol in forms(x, nv, d):
            if not name.startswith(('F', 'swapped', 'xarray', 'float32', 'complex64', 'int8', 'strided', 'ascomplex')) or (
                    name.startswith('ascomplex') and algo.startswith('pod')):
                continue
            for n in (2, 3):
                at = '%s on %d ranks, shape %r, %s data presented as %s: ' % (algo, n, SHAPES[si], kind, name)
                rep.case('p/%s/%d/%s/%s/%d' % (algo, si, kind, name, n), algo=algo, shape=shape, form=name, ranks=n)
                r = spmd.launch(n, program, (algo, [v], p, w, d + '/r', fitdir), root=d)
                if not r.ok():
                    rep.bad('run', at + r.describe())
                    return rep
                for g in r.values:
                    for k in g:
                        t = 1e-9 if not fitdir else tol * 10
                        if not cmp.close(g[k], e[k], t, max(np.abs(e[k]).max(), 1e-30)):
                            rep.bad(k, at + '%s: %s' % (k, cmp.err(g[k], e[k])))
                            return rep
    return rep
