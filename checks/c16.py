'''C16: truncation, precision and storage options change only what they should.'''
import os
import numpy as np
import yaml

from mc import api, cmp, gen, ref, spmd
from mc.core import Rep, quiet

PROP = 'C16'
LEVEL = 'model_checking'
RULE = ('every shape x data kind x block length x number of saved modes (1 to beyond the number of blocks) x precision x '
        'storage option x batch/streaming (and rank count): results against the fit that stores everything in double '
        'precision, files against the object, shapes and types of the files')
SHAPES = [((4,), 1, True), ((4,), 1, False), ((2, 3), 2, True), ((1,), 1, True), ((2, 2, 2), 1, True), ((1, 3), 3, True), ((3,), 1, True)]
STORE = {'disk': {}, 'nodisk': {'savefreq_disk': False}, 'fft': {'savefft': True}, 'nodisk+fft': {'savefreq_disk': False, 'savefft': True}}


def plan(tier, seed):
    items = []
    for si in range(len(SHAPES)):
        for kind, full in (('real', False), ('real', True), ('complex', False), ('complex', True)):
            for n in ((4, 5, 6) if tier == 'quick' else (4, 5, 6, 7, 8, 9)):
                items.append(('t_batch', [si, kind, full, n]))
                items.append(('t_stream', [si, kind, full, n]))
    items += [('t_batch', [si, kind, full, 4, [[12, 0]]]) for si, kind, full in ((2, 'real', False), (0, 'complex', True))]
    items.append(('t_batch', [4, 'real', False, 16, [[5, 25]]]))
    items += [('t_par', [si, st, dt]) for si in (0, 2, 4) for st in STORE for dt in ('double', 'single')]
    return items


def files_ok(rep, at, s, a, dtype, store, shape, nv, kind, nm, n, nb):
    '''documented names, shapes, types; object and files agree.'''
    d = a['dir']
    st = api.stored(d, modes='disk' in store and 'nodisk' not in store or store == 'fft')
    F, C = (np.float64, np.complex128) if dtype == 'double' else (np.float32, np.complex64)
    if st['weights'].shape != tuple(shape) + (nv,) or st['weights'].dtype != F:
        rep.bad('weights', at + 'stored weights have shape %r and type %s' % (st['weights'].shape, st['weights'].dtype))
    if st['ltm'].shape != tuple(shape) + (nv,) or st['ltm'].dtype != (C if kind == 'complex' else F):
        rep.bad('ltm', at + 'stored mean has shape %r and type %s' % (st['ltm'].shape, st['ltm'].dtype))
    if not np.array_equal(np.asarray(s.eigs), st['eigs']) or not np.array_equal(np.asarray(s.freq), st['freq']):
        rep.bad('object', at + 'stored eigenvalues or frequencies are not those returned')
    w = np.asarray(s.weights)
    if w.size == st['weights'].size and not np.array_equal(w.ravel(), st['weights'].ravel()):
        rep.bad('object', at + 'stored weights are not those returned')
    p = st['params']
    for k, v in (('n_modes_save', nm), ('n_dft', n), ('n_blocks', nb), ('n_freq', len(st['freq'])), ('time_step', 0.5),
                 ('n_space_dims', len(shape)), ('n_variables', nv), ('results_folder', d)):
        if p.get(k) != v or isinstance(p.get(k), bool):
            rep.bad('params', at + 'stored parameter %s is %r instead of %r' % (k, p.get(k), v))
    if 'nodisk' in store:
        left = [f for f in os.listdir(os.path.join(d, 'modes'))] if os.path.isdir(os.path.join(d, 'modes')) else []
        if left:
            rep.bad('nodisk', at + 'modes were stored although savefreq_disk is off: %r' % left[:3])
    else:
        for f, m in enumerate(st['modes']):
            if m.shape != tuple(shape) + (nv, nm) or m.dtype != C:
                rep.bad('modes', at + 'stored modes have shape %r and type %s instead of %r and %s' % (
                    m.shape, m.dtype, tuple(shape) + (nv, nm), C.__name__))
                break
            if not np.array_equal(np.asarray(s.get_modes_at_freq(f)), m):
                rep.bad('object', at + 'modes returned at frequency %d are not those stored' % f)
                break
    if 'fft' in store:
        b = os.path.join(d, 'blocks')
        names = sorted(os.listdir(b)) if os.path.isdir(b) else []
        if len(names) != nb * len(st['freq']):
            rep.bad('blocks', at + '%d block files for %d blocks and %d frequencies' % (len(names), nb, len(st['freq'])))
        for f in names:
            v = np.load(os.path.join(b, f))
            if v.size != int(np.prod(shape)) * nv or v.dtype != C:
                rep.bad('blocks', at + 'block file %s has shape %r and type %s' % (f, v.shape, v.dtype))
                break
    return st if not rep.viol else None


def same(rep, at, e, modes, base, tol, mtol):
    sc = max(np.abs(base['eigs']).max(), 1e-30)
    if not cmp.close(e, base['eigs'], tol, sc):
        rep.bad('eigs', at + 'eigenvalues: ' + cmp.err(e, base['eigs']))
        return False
    lam = np.abs(base['eigs'])
    for f, m in enumerate(modes):
        b = base['stored']['modes'][f]
        for j in range(m.shape[-1]):
            gap = 1e-5 if tol < 1e-6 else 0.05
            if lam[f][0] > 1e-3 * sc and lam[f][j] > 1e-3 * lam[f][0] and ref.separated(lam[f], j, gap):
                e = ref.mode_distance(b[..., j], m[..., j])
                if not e < mtol * lam[f][0] / lam[f][j]:
                    rep.bad('modes', at + 'mode %d at frequency %d differs by %.3g' % (j, f, e))
                    return False
    return True


def data(seed, si, nt, kind):
    shape, nv, axis = SHAPES[si]
    x = gen.field(seed, nt, shape, nv, kind)
    return x if axis else x[..., 0]


def t_batch(ctx, si, kind, full, n, blocks=((2, 0), (4, 50), (6, 0))):
    rep = Rep()
    shape, nv, axis = SHAPES[si]
    w = gen.wdict(gen.weights(ctx.seed, shape, nv))
    with ctx.tmp() as d, quiet():
        for nb, ov in blocks:
            k = ref.n_overlap(n, ov)
            x = data(ctx.seed, si, k + nb * (n - k) + 1 if k < n - 1 else k + nb, kind)
            p0 = api.params(n_dft=n, dt=0.5, xdim=len(shape), nv=nv, savedir=d + '/base', overlap=ov, fullspectrum=full)
            base, _ = api.serial([x], p0, w)
            if base['n_modes_save'] != nb or base['n_blocks'] != nb:
                rep.bad('default', '%d modes saved by default for %d blocks' % (base['n_modes_save'], nb))
                return rep
            for nm in list(range(1, nb + 1)) + [nb + 1, 100]:
                for dtype in ('double', 'single'):
                    for store, so in STORE.items():
                        if store not in ('disk', 'fft') and nm not in (1, nb):
                            continue
                        sd = '%s/o%d%s%s' % (d, nm, dtype, store.replace('+', ''))
                        p = dict(p0, savedir=sd, n_modes_save=nm, dtype=dtype, **so)
                        s = api.fit([x], p, w)
                        a = api.attrs(s)
                        at = 'shape %r, %s, full %r, n_dft %d, %d blocks, n_modes_save %d, %s, storage %s: ' % (
                            SHAPES[si], kind, full, n, nb, nm, dtype, store)
                        rep.case('b%d/%s/%d/%d/%d/%d/%s/%s' % (si, kind, full, n, nb, nm, dtype, store), shape=shape, n_modes_save=nm,
                                 dtype=dtype, storage=store)
                        if a['n_modes_save'] != min(nm, nb):
                            rep.bad('count', at + '%d modes saved' % a['n_modes_save'])
                            return rep
                        st = files_ok(rep, at, s, a, dtype, store, shape, nv, kind, min(nm, nb), n, nb)
                        tol, mtol = (1e-10, 1e-7) if dtype == 'double' else (1e-4, 1e-2)
                        if st is None or not same(rep, at, a['eigs'], st['modes'], base, tol, mtol):
                            return rep
                        for q in ('weights', 'ltm'):
                            if not cmp.close(st[q], base['stored'][q], tol):
                                rep.bad(q, at + 'stored %s: %s' % (q, cmp.err(st[q], base['stored'][q])))
                                return rep
    return rep


def t_stream(ctx, si, kind, full, n):
    rep = Rep()
    shape, nv, axis = SHAPES[si]
    w = gen.wdict(gen.weights(ctx.seed, shape, nv))
    with ctx.tmp() as d, quiet():
        for nb, ov in ((2, 0), (4, 50)):
            k = ref.n_overlap(n, ov)
            x = data(ctx.seed, si, k + nb * (n - k), kind)
            for nm in (1, 2, 100):
                p0 = api.params(n_dft=n, dt=0.5, xdim=len(shape), nv=nv, savedir='%s/b%d' % (d, nm), overlap=ov, fullspectrum=full,
                                n_modes_save=nm)
                base, s = api.serial([x], p0, w, api.Streaming)
                m = min(nm, nb)
                at = 'streaming, shape %r, %s, full %r, n_dft %d, overlap %d, n_modes_save %d: ' % (SHAPES[si], kind, full, n, ov, nm)
                rep.case('s%d/%s/%d/%d/%d/%d' % (si, kind, full, n, nb, nm), shape=shape, n_modes_save=nm)
                if base['eigs'].shape != (base['n_freq'], m) or base['n_modes_save'] != m:
                    rep.bad('count', at + 'eigenvalues of shape %r, n_modes_save %r' % (base['eigs'].shape, base['n_modes_save']))
                    return rep
                if files_ok(rep, at, s, base, 'double', 'disk', shape, nv, kind, m, n, base['n_blocks']) is None:
                    return rep
                s = api.fit([x], dict(p0, dtype='single', savedir='%s/s%d' % (d, nm)), w, api.Streaming)
                a = api.attrs(s)
                st = files_ok(rep, at + 'single, ', s, a, 'single', 'disk', shape, nv, kind, m, n, a['n_blocks'])
                if st is None or not same(rep, at + 'single, ', a['eigs'], [], base, 2e-4, 1):
                    return rep
    return rep


def program(comm, x, p, w):
    s = api.fit([x], dict(p), w, api.Standard, comm)
    return api.attrs(s)


def t_par(ctx, si, store, dtype):
    rep = Rep()
    shape, nv, axis = SHAPES[si]
    w = gen.wdict(gen.weights(ctx.seed, shape, nv))
    x = gen.field(ctx.seed, 14, shape, nv)
    with ctx.tmp() as d, quiet():
        p0 = api.params(n_dft=4, dt=0.5, xdim=len(shape), nv=nv, savedir=d + '/base')
        base, _ = api.serial([x], p0, w)
        for ranks in (1, 2, 3):
            for nm in (1, 2, 9):
                at = '%d ranks, shape %r, n_modes_save %d, %s, storage %s: ' % (ranks, SHAPES[si], nm, dtype, store)
                p = dict(p0, savedir='%s/r/%d%d' % (d, ranks, nm), n_modes_save=nm, dtype=dtype, **STORE[store])
                os.makedirs(d + '/r', exist_ok=True)
                r = spmd.launch(ranks, program, (x, p, w), root=d + '/r')
                rep.case('p%d/%s/%s/%d/%d' % (si, store, dtype, ranks, nm), ranks=ranks, storage=store)
                if not r.ok():
                    rep.bad('run', at + r.describe())
                    return rep

                class S:        # what the ranks returned, in the shape files_ok expects
                    eigs, freq, weights = r.values[0]['eigs'], r.values[0]['freq'], np.zeros(0)

                    @staticmethod
                    def get_modes_at_freq(f):
                        return api.post.get_modes_at_freq(r.values[0]['dir'], f)
                st = files_ok(rep, at, S, r.values[0], dtype, store, shape, nv, 'real', min(nm, 3), 4, 3)
                tol, mtol = (1e-10, 1e-7) if dtype == 'double' else (1e-4, 1e-2)
                if st is None or not all(same(rep, at, v['eigs'], st['modes'], base, tol, mtol) for v in r.values):
                    return rep
    return rep
