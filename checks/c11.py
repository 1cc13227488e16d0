'''C11: the spectral decomposition follows its definition.'''
import numpy as np

from mc import api, cmp, gen, ref
from mc.core import Rep, quiet

PROP = 'C11'
LEVEL = 'model_checking'
RULE = ('block grid: every block length x every number of overlapping snapshots x series lengths (all remainders) x data '
        'kind x mean; percent: every overlap in percent that is a whole number of snapshots; options: every shape x weights x normalisation x spectrum; impulses: a unit impulse at every time '
        'step and point; points that do not vary, in the whole series or in some blocks, with and without normalisation; data of every magnitude (1e-7 to 1e8, also different by variable).  Each fit is compared with Welch\'s estimate computed from the definition: number of blocks, '
        'eigenvalues, and every well separated mode up to phase')

SHAPES = [([5], 1, True), ([5], 1, False), ([2, 3], 2, True), ([3, 2], 1, False), ([2, 1, 2], 2, True), ([1], 1, True), ([1], 3, True),
          ([2, 2, 2], 1, True), ([1, 4], 3, True), ([2, 1, 3, 2], 2, True)]
MEANS = ['longtime', 'blockwise', 'zero']
KINDS = [('real', False), ('real', True), ('complex', False), ('complex', True)]


def plan(tier, seed):
    nd = range(4, 13) if tier == 'quick' else range(4, 17)
    items = [('t_grid', [n, k, full]) for n in nd for k, full in KINDS]
    items += [('t_opts', [s, k, full]) for s in range(len(SHAPES)) for k, full in KINDS]
    items += [('t_impulse', [n, o]) for n in (4, 5, 6, 7) for o in ((0, n // 2, n - 1) if tier == 'quick' else range(n))]
    items += [('t_percent', [n]) for n in (10, 20, 25, 40, 50, 100, 200)]
    items += [('t_constant', [k, full]) for k, full in KINDS]
    items += [('t_scale', [k, full]) for k, full in KINDS]
    items += [('t_large', [n, k, full]) for n in (16, 25, 33, 64) for k, full in KINDS]
    return items


def pct(n, k):
    '''percentage that gives an overlap of k snapshots of n.'''
    return 0 if k == 0 else (k - 0.5) * 100 / n


def compare(rep, at, data, w, shape, nv, p, d, mean='longtime', full=False, normd=False, modes=True, tol=1e-9):
    '''one fit against the definition; data (nt, *shape[, nv]), w array or None.'''
    nt = data.shape[0]
    a, s = api.serial([data], dict(p, savedir=d), None if w is None else gen.wdict(w))
    r = ref.spod(data.reshape(nt, -1), np.ones(data[0].size) if w is None else w, p['n_dft'], p.get('overlap', 0), mean, full,
                 normd, p['time_step'])
    if a['n_blocks'] != r['n_blocks']:
        rep.bad('blocks', at + '%d blocks instead of %d' % (a['n_blocks'], r['n_blocks']))
        return False
    scale = max(r['eigs'].max(), 1e-60)
    if not cmp.close(a['eigs'], r['eigs'], tol, scale):
        rep.bad('eigs', at + 'eigenvalues: ' + cmp.err(a['eigs'], r['eigs']))
        return False
    if modes:
        for f in range(len(r['freq'])):
            lam = r['lam'][f]
            if lam[0] < 1e-8 * r['lam'].max():
                continue
            m = a['stored']['modes'][f].reshape(data[0].size, -1)
            for j in range(m.shape[1]):
                if ref.separated(lam, j, 1e-5):
                    e = ref.mode_distance(r['modes'][f][:, j], m[:, j])
                    if not e < tol * 1e4 * max(1, (lam[0] / lam[j]) ** 0.5):
                        rep.bad('modes', at + 'mode %d at frequency %d differs by %.3g' % (j, f, e))
                        return False
    return True


def t_grid(ctx, n, kind, full):
    rep = Rep()
    with ctx.tmp() as d, quiet():
        for k in range(n):
            step = n - k
            lo = n + step
            nts = sorted(set(range(lo, lo + step + 1)) | {3 * n + 1})
            for i, nt in enumerate(nts):
                x = gen.field(ctx.seed, nt, (3,), 1, kind)
                w = gen.weights(ctx.seed, (3,), 1)
                for mean in (MEANS if ctx.tier != 'quick' or kind == 'real' and not full else [MEANS[(i + k) % 3]]):
                    p = api.params(n_dft=n, dt=0.5, xdim=1, nv=1, overlap=pct(n, k), mean_type=mean, fullspectrum=full)
                    at = 'n_dft %d, overlap %d, nt %d, %s, full %r, mean %s: ' % (n, k, nt, kind, full, mean)
                    rep.case('g%d/%d/%d/%s/%d/%s' % (n, k, nt, kind, full, mean), n_dft=n, overlap=k, nt=nt, kind=kind, mean=mean)
                    if not compare(rep, at, x, w, (3,), 1, p, d, mean, full):
                        return rep
    return rep


def t_percent(ctx, n):
    '''Every overlap in percent that is a whole number of snapshots.'''
    rep = Rep()
    import fractions
    with ctx.tmp() as d, quiet():
        for o in [i / 2 for i in range(200)]:
            k = fractions.Fraction(o) * n / 100
            if k.denominator != 1:
                continue
            k = int(k)
            nt = n + max(3 * (n - k), 2)
            x = gen.field(ctx.seed, nt, (1,), 1, 'real')
            for q in ([int(o), o] if o == int(o) else [o]):
                rep.case('percent/%d/%r' % (n, q))
                at = 'n_dft %d, overlap %r %% (%d snapshots), nt %d: ' % (n, q, k, nt)
                p = api.params(n_dft=n, dt=0.5, xdim=1, nv=1, overlap=q)
                a, s = api.serial([x], dict(p, savedir=d), None)
                st = a['stored']['params']
                b = (nt - k) // (n - k)
                if (a['n_blocks'], st['n_blocks'], st['n_overlap']) != (b, b, k):
                    rep.bad('blocks', at + '%d blocks, stored %d blocks with overlap %d; expected %d' % (
                        a['n_blocks'], st['n_blocks'], st['n_overlap'], b))
                    return rep
                if not compare(rep, at, x, None, (1,), 1, p, d, modes=False):
                    return rep
    return rep


def t_opts(ctx, si, kind, full):
    rep = Rep()
    shape, nv, axis = SHAPES[si]
    with ctx.tmp() as d, quiet():
        for n, k, nt in ((4, 0, 11), (5, 2, 14), (6, 3, 21), (7, 6, 12)):
            x = gen.field(ctx.seed, nt, shape, nv, kind, axis)
            for wn, w in (('none', None), ('user', gen.weights(ctx.seed, shape, nv)), ('point', None)):
                if wn == 'point':            # all weight on a single value
                    w = np.full(tuple(shape) + (nv,), 1e-3)
                    w.reshape(-1)[-1] = 5.
                for normd in (False, True):
                    for mean in MEANS:
                        for nm in (1, 99):
                            p = api.params(n_dft=n, dt=0.25, xdim=len(shape), nv=nv, overlap=pct(n, k), mean_type=mean,
                                           fullspectrum=full, normalize_data=normd, n_modes_save=nm)
                            at = 'shape %r, n_dft %d, overlap %d, nt %d, %s, full %r, weights %s, normalize %r, mean %s: ' % (
                                SHAPES[si], n, k, nt, kind, full, wn, normd, mean)
                            rep.case('o%d/%s/%d/%d/%s/%d/%s/%d' % (si, kind, full, n, wn, normd, mean, nm), shape=SHAPES[si], n_dft=n,
                                     weights=wn, normalize_data=normd, mean=mean)
                            if not compare(rep, at, x, w, shape, nv, p, d, mean, full, normd):
                                return rep
    return rep


def t_impulse(ctx, n, k):
    rep = Rep()
    nt, shape, nv = 2 * n + 5, (2,), 2
    w = gen.weights(ctx.seed, shape, nv)
    with ctx.tmp() as d, quiet():
        for t in range(nt):
            for q in range(4):
                x = np.zeros((nt, 4))
                x[t, q] = 1.
                x = x.reshape(nt, 2, 2)
                for mean in ('zero', 'longtime', 'blockwise'):
                    p = api.params(n_dft=n, dt=0.5, xdim=1, nv=nv, overlap=pct(n, k), mean_type=mean, savefreq_disk=q == 3)
                    at = 'impulse at time %d, value %d, n_dft %d, overlap %d, nt %d, mean %s: ' % (t, q, n, k, nt, mean)
                    rep.case('i%d/%d/%d/%d/%s' % (n, k, t, q, mean), time=t, point=q, n_dft=n, overlap=k, mean=mean)
                    s = api.fit([x], dict(p, savedir=d), gen.wdict(w))
                    r = ref.spod(x.reshape(nt, 4), w, n, p['overlap'], mean, False, False, 0.5)
                    if s.n_blocks != r['n_blocks'] or not cmp.close(s.eigs, r['eigs'], 1e-10, max(r['eigs'].max(), 1e-6)):
                        rep.bad('impulse', at + '%d blocks (expected %d), eigenvalues: %s' % (
                            s.n_blocks, r['n_blocks'], cmp.err(np.array(s.eigs), r['eigs'])))
                        return rep
    return rep


def t_constant(ctx, kind, full):
    '''values that are constant, in the whole series, in the first half or around the middle.'''
    rep = Rep()
    shape, nv = (3,), 2
    with ctx.tmp() as d, quiet():
        for n, k, nt in ((4, 0, 12), (4, 2, 13), (5, 2, 16), (6, 5, 14)):
            for where in ('all', 'first', 'middle'):
                sl = {'all': slice(None), 'first': slice(0, nt // 2 + 1), 'middle': slice(nt // 3, 2 * nt // 3 + 1)}[where]
                for val in (0., 3.5, -2.) + ((.5 - 4j,) if kind == 'complex' else ()):
                    for pts in ((0,), (2, 5), (1, 2, 3, 4), (1, 3, 5), (0, 1, 2, 3, 4, 5)):
                        x = gen.field(ctx.seed, nt, shape, nv, kind)
                        v = x.reshape(nt, -1)
                        for q in pts:
                            v[sl, q] = val
                        if not np.abs(v).any():
                            continue
                        w = gen.weights(ctx.seed, shape, nv)
                        for normd in (False, True):
                            for mean in MEANS:
                                if where == 'all' and len(pts) == 6 and mean != 'zero':
                                    continue
                                p = api.params(n_dft=n, dt=0.25, xdim=1, nv=nv, overlap=pct(n, k), mean_type=mean, fullspectrum=full,
                                               normalize_data=normd)
                                at = 'n_dft %d, overlap %d, nt %d, %s, values %r constant (%r, %s), full %r, normalize %r, mean %s: ' % (
                                    n, k, nt, kind, pts, val, where, full, normd, mean)
                                rep.case('c%d/%s/%d/%s/%r/%r/%d/%s' % (n, kind, full, where, val, pts, normd, mean), n_dft=n, constant=pts,
                                         normalize_data=normd, mean=mean)
                                if not compare(rep, at, x, w, shape, nv, p, d, mean, full, normd):
                                    return rep
    return rep


def t_scale(ctx, kind, full):
    '''data of every magnitude, also different by variable.'''
    rep = Rep()
    shape, nv = (3,), 2
    with ctx.tmp() as d, quiet():
        for n, k, nt in ((4, 0, 13), (5, 2, 16), (8, 4, 29)):
            for s in ((1e-7,) * 2, (1e-5,) * 2, (1e-3,) * 2, (1e4,) * 2, (1e8,) * 2, (1e-6, 1.), (1., 1e-6), (1e5, 1e-2)):
                x = gen.field(ctx.seed, nt, shape, nv, kind) * np.array(s)
                w = gen.weights(ctx.seed, shape, nv)
                for normd in (False, True):
                    for mean in MEANS:
                        p = api.params(n_dft=n, dt=0.25, xdim=1, nv=nv, overlap=pct(n, k), mean_type=mean, fullspectrum=full,
                                       normalize_data=normd)
                        at = 'n_dft %d, overlap %d, nt %d, %s data of magnitude %r, full %r, normalize %r, mean %s: ' % (
                            n, k, nt, kind, s, full, normd, mean)
                        rep.case('s%d/%s/%d/%r/%d/%s' % (n, kind, full, s, normd, mean), n_dft=n, magnitude=s, normalize_data=normd, mean=mean)
                        if not compare(rep, at, x, w, shape, nv, p, d, mean, full, normd):
                            return rep
    return rep


def t_large(ctx, n, kind, full):
    rep = Rep()
    with ctx.tmp() as d, quiet():
        for o in (0, 33.4, 50, 75, 90):
            for nt in (5 * n, 12 * n + 7):
                for i, (shape, nv) in enumerate((((40,), 1), ((6, 11), 2), ((3, 4, 5), 3))):
                    x = gen.field(ctx.seed, nt, shape, nv, kind)
                    w = gen.weights(ctx.seed, shape, nv)
                    mean = MEANS[i]
                    p = api.params(n_dft=n, dt=0.01, xdim=len(shape), nv=nv, overlap=o, mean_type=mean, fullspectrum=full)
                    at = 'n_dft %d, overlap %r %%, nt %d, shape %r, %s, full %r, mean %s: ' % (n, o, nt, shape, kind, full, mean)
                    rep.case('l%d/%s/%d/%s/%d/%d' % (n, o, nt, kind, full, i), n_dft=n, overlap=o, nt=nt, kind=kind, mean=mean)
                    if not compare(rep, at, x, w, shape, nv, p, d, mean, full):
                        return rep
    return rep
