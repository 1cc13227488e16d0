'''C15: constant offsets have no effect, the stored mean is the mean of all snapshots.'''
import os
import numpy as np

from mc import api, cmp, gen, ref, spmd
from mc.core import Rep, quiet

PROP = 'C15'
LEVEL = 'model_checking'
RULE = ('every series length (all remainders modulo the number of blocks and the block step) x mean type x data kind x offset: '
        'stored mean against the average of all snapshots, eigenvalues and well separated modes with and without a constant '
        'offset field, no mean against the definition on raw data; batch and streaming, arrays, lists and files on simulated ranks; long series in single precision')
SHAPES = [((4,), 1), ((2, 3), 2), ((1,), 1)]


def plan(tier, seed):
    items = []
    for n in ((4, 5, 7) if tier == 'quick' else (4, 5, 6, 7, 8, 11)):
        for k in sorted({0, n // 2, n - 1}):
            for kind, full in (('real', False), ('real', True), ('complex', False)):
                items += [('t_batch', [n, k, kind, full, s]) for s in range(len(SHAPES))]
                items += [('t_stream', [n, k, kind, full, s]) for s in range(len(SHAPES))]
    items += [('t_single', [dt, cls]) for dt in ('single', 'double') for cls in ('Standard', 'Streaming')]
    items += [('t_files', [kind, n]) for kind in ('nc', 'mat', 'array') for n in (1, 2, 3)]
    return items


def pct(n, k):
    return 0 if k == 0 else (k - 0.5) * 100 / n


def offsets(seed, x):
    r = gen.rng('off', seed, x.shape)
    c = r.uniform(-50, 50, x.shape[1:])
    if np.iscomplexobj(x):
        c = c + 1j * r.uniform(-50, 50, x.shape[1:])
    return [c, np.full(x.shape[1:], 17.0, dtype=x.dtype)]


def same(rep, key, at, a, b, x, tol):
    '''eigenvalues and modes of two fits agree.'''
    sc = max(np.abs(b['eigs']).max(), 1e-30)
    if not cmp.close(a['eigs'], b['eigs'], tol, sc):
        rep.bad(key, at + 'eigenvalues change: ' + cmp.err(a['eigs'], b['eigs']))
        return False
    lam = np.abs(b['eigs'])
    for f in range(len(lam)):
        if lam[f][0] < 1e-6 * sc:
            continue
        ma, mb = a['stored']['modes'][f], b['stored']['modes'][f]
        for m in range(mb.shape[-1]):
            if ref.separated(lam[f], m, 1e-4) and ref.mode_distance(mb[..., m], ma[..., m]) > 1e-5 * max(
                    1, (lam[f][0] / lam[f][m])):
                rep.bad(key, at + 'mode %d at frequency %d changes by %.3g' % (m, f, ref.mode_distance(mb[..., m], ma[..., m])))
                return False
    return True


def mean_ok(rep, at, st, x):
    m = x.mean(axis=0)
    g = np.asarray(st['ltm'])
    if g.size != m.size or not cmp.close(g.ravel(), m.ravel(), 1e-10, np.abs(x).max()):
        rep.bad('mean', at + 'stored mean: ' + cmp.err(g.ravel(), m.ravel()))
        return False
    if np.iscomplexobj(g) != np.iscomplexobj(x):
        rep.bad('mean', at + 'stored mean has type %s for data of type %s' % (g.dtype, x.dtype))
        return False
    return True


def t_single(ctx, dtype, cls):
    '''the mean of a long series far from zero, within the precision asked for'''
    rep = Rep()
    eps = np.finfo({'single': 'f4', 'double': 'f8'}[dtype]).eps
    with ctx.tmp() as d, quiet():
        for n, nt in ((4, 1000), (5, 2501), (64, 3000)) if cls == 'Standard' else ((4, 300), (7, 1001)):
            for kind in ('real', 'complex'):
                for typ in ('f4', 'f8'):
                    x = 1e-2 * gen.field(ctx.seed, nt, (3,), 2, kind) + np.array([1000.37, -300.21])
                    if typ == 'f4':
                        x = x.astype('c8' if kind == 'complex' else 'f4')
                    s = api.fit([x], api.params(n_dft=n, dt=0.5, nv=2, savedir=d, dtype=dtype, savefreq_disk=False), None, getattr(api, cls))
                    m = x.mean(axis=0, dtype=complex if kind == 'complex' else float)
                    g = np.load(os.path.join(s.savedir_sim, 'ltm_modes.npy'))
                    rep.case('single/%s/%s/%d/%d/%s/%s' % (dtype, cls, n, nt, kind, typ), nt=nt, type=typ, precision=dtype)
                    # (sums within a block and the running mean of the streaming fit are rounded at every step)
                    e = np.abs(g.reshape(m.shape) - m).max() / 1000
                    if not e <= eps * (8 + n / 2 if cls == 'Standard' and dtype == 'single' else 8 + nt):
                        rep.bad('precision', '%s, %s precision, %d snapshots of type %s: the stored mean is off by %.3g of its size' % (cls, dtype, nt, x.dtype, e))
                        return rep
    return rep


def t_batch(ctx, n, k, kind, full, si):
    rep = Rep()
    shape, nv = SHAPES[si]
    step = n - k
    w = gen.wdict(gen.weights(ctx.seed, shape, nv))
    with ctx.tmp() as d, quiet():
        nts = sorted({n + j * step + e for j in (1, 2, 4) for e in {0, 1, step // 2, step - 1}})
        for nt in nts:
            x = gen.field(ctx.seed, nt, shape, nv, kind)
            nb = (nt - k) // step
            for mean in ('longtime', 'blockwise', 'zero', 'LongTime'):
                for norm in ({}, {'normalize_data': True}, {'normalize_weights': True}):
                    p = api.params(n_dft=n, dt=0.5, xdim=len(shape), nv=nv, savedir=d, overlap=pct(n, k), mean_type=mean,
                                   fullspectrum=full, **norm)
                    a, _ = api.serial([x], p, w)
                    at = 'n_dft %d, overlap %d, nt %d (%d blocks), %s, full %r, shape %r, mean %s, %r: ' % (
                        n, k, nt, nb, kind, full, (shape, nv), mean, norm)
                    rep.case('b%d/%d/%d/%s/%d/%d/%s/%r' % (n, k, nt, kind, full, si, mean, norm), n_dft=n, nt=nt, mean=mean, shape=shape)
                    if a['n_blocks'] != nb:
                        rep.bad('blocks', at + '%d blocks' % a['n_blocks'])
                        return rep
                    if not mean_ok(rep, at, a['stored'], x):
                        return rep
                    if mean == 'zero':
                        if not norm:
                            r = ref.spod(x.reshape(nt, -1), w['weights'], n, p['overlap'], 'zero', full, False, 0.5)
                            if not cmp.close(a['eigs'], r['eigs'], 1e-9, max(r['eigs'].max(), 1e-30)):
                                rep.bad('raw', at + 'not the spectrum of the raw data: ' + cmp.err(a['eigs'], r['eigs']))
                                return rep
                        continue
                    for c in offsets(ctx.seed, x):
                        if 'normalize_weights' in norm:     # the variance is that over space and time: one offset per variable
                            c = np.broadcast_to(c.reshape(-1, nv)[0], c.shape)
                        b, _ = api.serial([x + c], p, w)
                        if not same(rep, 'offset', at + 'with a constant offset, ', b, a, x, 1e-7) or not mean_ok(rep, at, b['stored'], x + c):
                            return rep
                    if mean == 'longtime' and not norm:
                        # the mean is that of the whole series, not of the blocks
                        r = ref.spod(x.reshape(nt, -1), w['weights'], n, p['overlap'], 'longtime', full, False, 0.5)
                        if not cmp.close(a['eigs'], r['eigs'], 1e-9, max(r['eigs'].max(), 1e-30)):
                            rep.bad('longtime', at + 'eigenvalues: ' + cmp.err(a['eigs'], r['eigs']))
                            return rep
    return rep


def t_stream(ctx, n, k, kind, full, si):
    rep = Rep()
    shape, nv = SHAPES[si]
    step = n - k
    w = gen.wdict(gen.weights(ctx.seed, shape, nv))
    with ctx.tmp() as d, quiet():
        for nt in sorted({n + j * step + e for j in (1, 3) for e in {0, 1, step - 1}}):
            x = gen.field(ctx.seed, nt, shape, nv, kind)
            p = api.params(n_dft=n, dt=0.5, xdim=len(shape), nv=nv, savedir=d, overlap=pct(n, k), fullspectrum=full, n_modes_save=2)
            for parts in ([x], [x[:3], x[3:]]):
                a, _ = api.serial(parts, p, w, api.Streaming)
                at = 'streaming, n_dft %d, overlap %d, nt %d, %s, full %r, shape %r, %d data sets: ' % (
                    n, k, nt, kind, full, (shape, nv), len(parts))
                rep.case('s%d/%d/%d/%s/%d/%d/%d' % (n, k, nt, kind, full, si, len(parts)), n_dft=n, nt=nt, shape=shape)
                if not mean_ok(rep, at, a['stored'], x):
                    return rep
            for c in offsets(ctx.seed, x):
                b, _ = api.serial([x + c], p, w, api.Streaming)
                if not same(rep, 'offset', at + 'with a constant offset, ', b, a, x, 1e-7) or not mean_ok(rep, at, b['stored'], x + c):
                    return rep
    return rep


def program(comm, files, p, kw, disk):
    return api.attrs(api.fit(files, dict(p), None, api.Standard, comm, **kw))


def t_files(ctx, kind, ranks):
    rep = Rep()
    shape, nv = ((2, 3, 1), 2) if kind == 'mat' else ((5,), 2)
    with ctx.tmp() as d, quiet():
        for nt in range(12, 18):
            x = gen.field(ctx.seed, nt, shape, nv)
            split = [0, 5, nt]
            kw = {}
            os.mkdir('%s/%d' % (d, nt))
            if kind == 'nc':
                import xarray as xr
                files = []
                for j in range(2):
                    lo, hi = split[j], split[j + 1]
                    files.append('%s/%d/f%d.nc' % (d, nt, j))
                    xr.Dataset({v: (('time', 'x'), x[lo:hi, :, i]) for i, v in enumerate('uv')},
                               coords={'time': np.arange(lo, hi) * 0.5}).to_netcdf(files[-1])
                kw = {'variables': ['u', 'v']}
            elif kind == 'mat':
                import h5py
                files = []
                for t in range(nt):
                    files.append('%s/%d/m%03d.mat' % (d, nt, t))
                    with h5py.File(files[-1], 'w') as h:
                        h['q'] = np.moveaxis(x[t], -1, 0)
            else:
                files = [x[:5], x[5:]]
            disk2 = kind != 'array'
            for mean in ('longtime', 'blockwise', 'zero'):
                p = api.params(n_dft=5, dt=0.5, xdim=len(shape), nv=nv, savedir='%s/%d/o' % (d, nt), overlap=40, mean_type=mean,
                               savefreq_disk=not disk2, savefreq_disk2=disk2)
                r = spmd.launch(ranks, program, (files, p, kw, disk2), root=d)
                at = '%s input, nt %d, %d ranks, mean %s: ' % (kind, nt, ranks, mean)
                rep.case('f%s/%d/%d/%s' % (kind, nt, ranks, mean), input=kind, nt=nt, ranks=ranks)
                if not r.ok():
                    rep.bad('run', at + r.describe())
                    return rep
                st = api.stored(r.values[0]['dir'], modes=False)
                if not mean_ok(rep, at, st, x):
                    return rep
                e = ref.spod(x.reshape(nt, -1), np.ones(x[0].size), 5, 40, mean, False, False, 0.5)
                for v in r.values:
                    if not cmp.close(v['eigs'], e['eigs'], 1e-9, e['eigs'].max()):
                        rep.bad('eigs', at + 'eigenvalues: ' + cmp.err(v['eigs'], e['eigs']))
                        return rep
    return rep
