'''C20: weights act as a diagonal inner product, however they are given.'''
import os
import numpy as np

from mc import api, cmp, gen, ref, spmd
from mc.core import Rep, quiet

PROP = 'C20'
LEVEL = 'model_checking'
RULE = ('every shape x data kind x form of the weights (flat, shaped, integer, absent, unit) x scaling x algorithm: eigenvalues, '
        'modes and stored weights, the equivalent fit of sqrt(w)*data; every wrong size is refused; variance normalisation '
        'against the variance of each variable (also one that does not vary, or by very little), serial and on every rank count; area weights of every grid against the rule')
SHAPES = [((4,), 1), ((5,), 2), ((2, 3), 1), ((2, 3), 2), ((2, 2, 2), 1), ((2, 1, 3), 3), ((1,), 1)]


def plan(tier, seed):
    items = [('t_forms', [s, k, a]) for s in range(len(SHAPES)) for k in ('real', 'complex') for a in ('batch', 'stream', 'pod')
             if not (a == 'pod' and k == 'complex')]
    items += [('t_sizes', [s, a]) for s in range(len(SHAPES)) for a in ('batch', 'stream', 'pod')]
    items += [('t_norm', [s, a, n]) for s in range(len(SHAPES)) for a in ('batch', 'pod') for n in ((0, 1, 2, 3, 5) if tier == 'quick' else (0, 1, 2, 3, 4, 5, 7))]
    items += [('t_still', [s, a, n]) for s in (0, 2, 4) for a in ('batch', 'pod') for n in (0, 2, 3)]
    items += [('t_apply', [s]) for s in range(len(SHAPES))]
    items += [('t_geo', [a]) for a in range(4, 8 if tier == 'quick' else 12)]
    return items


CLS = {'batch': api.Standard, 'stream': api.Streaming, 'pod': api.POD}


def fit(algo, x, p, w, d):
    with quiet():
        if algo != 'pod':
            a, _ = api.serial([x], dict(p, savedir=d), w, CLS[algo])
            return np.abs(a['eigs']), a['stored']['modes'], a['stored']['weights']
        s = api.fit([x], dict(p, savedir=d), w, api.POD)
        q = os.path.join(d, 'modes%d' % s.n_modes_save)
        return np.abs(s.eigs)[None], [np.load(q + '/modes.npy')], np.load(q + '/weights.npy')


def modes_same(rep, key, at, lam, a, b, fac, tol=1e-6):
    '''modes a equal fac * b up to phase where determined.'''
    for f in range(len(a)):
        for j in range(a[f].shape[-1]):
            if lam[f][0] > 1e-6 * lam.max() and ref.separated(lam[f], j, 1e-4):
                q = ref.mode_distance(fac * b[f][..., j], a[f][..., j])
                if not q < tol * lam[f][0] / lam[f][j]:
                    rep.bad(key, at + 'mode %d at frequency %d differs by %.3g' % (j, f, q))
                    return False
    return True


def t_forms(ctx, si, kind, algo):
    rep = Rep()
    shape, nv = SHAPES[si]
    with ctx.tmp() as d, quiet():
        for seed in (ctx.seed, ctx.seed + 1):
            x = gen.field(seed, 15, shape, nv, kind)
            w = gen.weights(seed, shape, nv)
            p = api.params(n_dft=5, dt=0.5, xdim=len(shape), nv=nv, overlap=40, n_modes_save=3)
            pw = 0.5 if algo == 'stream' else 1       # streaming returns singular values
            e0, m0, w0 = fit(algo, x, p, gen.wdict(w), d + '/a')
            at0 = '%s, shape %r, %s data, ' % (algo, SHAPES[si], kind)
            if not cmp.close(w0, w, 1e-14):
                rep.bad('stored', at0 + 'stored weights: ' + cmp.err(w0, w))
                return rep
            # forms
            for name, v in (('flat', w.ravel()), ('F', np.asfortranarray(w)), ('noaxis', w[..., 0] if nv == 1 else w)):
                e, m, ws = fit(algo, x, p, gen.wdict(v), d + '/b')
                rep.case('%s/%d/%s/%d/%s' % (algo, si, kind, seed, name), algo=algo, shape=shape, form=name)
                if not cmp.close(e, e0, 1e-10) or not cmp.close(ws.ravel(), w.ravel(), 1e-14):
                    rep.bad('form', at0 + 'weights given %s: %s' % (name, cmp.err(e, e0)))
                    return rep
                if not modes_same(rep, 'form', at0 + 'weights given %s: ' % name, e0, m, m0, 1):
                    return rep
            wi = np.round(w * 4).astype(int)
            e, m, ws = fit(algo, x, p, gen.wdict(wi), d + '/b')
            e2, m2, _ = fit(algo, x, p, gen.wdict(wi.astype(float)), d + '/c')
            rep.case('%s/%d/%s/%d/int' % (algo, si, kind, seed))
            if not cmp.close(e, e2, 1e-10) or not cmp.close(ws, wi, 1e-14):
                rep.bad('form', at0 + 'integer weights: ' + cmp.err(e, e2))
                return rep
            # scaling
            for c in (2., 0.125, 1e4, 1e-4, 1e-14, 1e12):
                e, m, ws = fit(algo, x, p, gen.wdict(w * c), d + '/b')
                rep.case('%s/%d/%s/%d/*%g' % (algo, si, kind, seed, c), algo=algo, shape=shape, factor=c)
                if not cmp.close(e, e0 * c ** pw, 1e-9):
                    rep.bad('scale', at0 + 'weights times %g: %s' % (c, cmp.err(e, e0 * c ** pw)))
                    return rep
                if not modes_same(rep, 'scale', at0 + 'weights times %g: ' % c, e0, m, m0, c ** -0.5):
                    return rep
            # absent and unit weights
            e1, m1, w1 = fit(algo, x, p, None, d + '/b')
            e2, m2, w2 = fit(algo, x, p, gen.wdict(np.ones(shape + (nv,))), d + '/c')
            rep.case('%s/%d/%s/%d/none' % (algo, si, kind, seed))
            if not cmp.close(e1, e2, 1e-12) or not np.array_equal(w1, np.ones(shape + (nv,))):
                rep.bad('none', at0 + 'no weights: ' + cmp.err(e1, e2))
                return rep
            # the diagonal inner product: weights w on x are unit weights on sqrt(w)*x
            e2, m2, _ = fit(algo, x * np.sqrt(w), p, None, d + '/c')
            rep.case('%s/%d/%s/%d/sqrt' % (algo, si, kind, seed))
            if not cmp.close(e2, e0, 1e-9):
                rep.bad('inner', at0 + 'not the inner product with these weights: ' + cmp.err(e0, e2))
                return rep
            if not modes_same(rep, 'inner', at0 + 'not the inner product with these weights: ', e0, m0, [q / np.sqrt(w)[..., None] for q in m2], 1):
                return rep
            # points without weight have no influence
            if w.size > 1:
                z = w.copy()
                z.flat[0] = 0
                y = x.copy()
                y.reshape(len(x), -1)[:, 0] += gen.rng('zero', seed).standard_normal(len(x)) * 5
                e, m, _ = fit(algo, x, p, gen.wdict(z), d + '/b')
                e2, m2, _ = fit(algo, y, p, gen.wdict(z), d + '/c')
                rep.case('%s/%d/%s/%d/zero' % (algo, si, kind, seed))
                if not cmp.close(e, e2, 1e-9):
                    rep.bad('zero', at0 + 'a point without weight changes the eigenvalues: ' + cmp.err(e, e2))
                    return rep
                if not all(np.isfinite(q).all() for q in m):
                    rep.bad('zero', at0 + 'modes are not finite when a point has no weight')
                    return rep
    return rep


def t_sizes(ctx, si, algo):
    rep = Rep()
    shape, nv = SHAPES[si]
    n = int(np.prod(shape)) * nv
    x = gen.field(ctx.seed, 12, shape, nv)
    p = api.params(n_dft=5, dt=0.5, xdim=len(shape), nv=nv, overlap=40)
    with ctx.tmp() as d, quiet():
        sizes = sorted({1, n - 1, n + 1, 2 * n, n // nv, n * nv, int(np.prod(shape[1:])) * nv} - {n, 0})
        k = 0
        for m in sizes:
            for forms in (np.ones(m), np.ones((m, 1)), np.ones((1, m))):
                rep.case('%s/%d/%d/%d' % (algo, si, m, forms.ndim), algo=algo, shape=shape, size=m)
                k += 1
                sd = '%s/%d' % (d, k)
                try:
                    api.fit([x], dict(p, savedir=sd), gen.wdict(forms), CLS[algo])
                except Exception:
                    if any('eigs' in f for _, _, fs in os.walk(sd) for f in fs):
                        rep.bad('stored', '%s, shape %r: weights of %d entries: results stored before the error' % (algo, SHAPES[si], m))
                        return rep
                    continue
                rep.bad('size', '%s, shape %r with %d variables: weights of %d entries accepted' % (algo, shape, nv, m))
                return rep
    return rep


def program(comm, algo, x, p, w):
    s = api.fit([x], dict(p), w, CLS[algo], comm)
    return np.abs(s.eigs)


def t_norm(ctx, si, algo, ranks):
    rep = Rep()
    shape, nv = SHAPES[si]
    with ctx.tmp() as d, quiet():
        for kind in ('real', 'complex'):
            if algo == 'pod' and kind == 'complex':
                continue
            x = gen.field(ctx.seed, 14, shape, nv, kind) * np.logspace(0, 2, nv)
            w = gen.weights(ctx.seed, shape, nv)
            var = [np.mean(np.abs(x[..., i] - x[..., i].mean()) ** 2) for i in range(nv)]
            p = api.params(n_dft=5, dt=0.5, xdim=len(shape), nv=nv, overlap=40, n_modes_save=3)
            e0, m0, _ = fit(algo, x, p, gen.wdict(w / np.array(var)), d + '/a')
            forms = [('shaped', w), ('flat', w.ravel()), ('none', None)] + (
                [('noaxis', w[..., 0])] if nv == 1 and ranks <= max(shape) else [])
            for name, v in forms:
                ww = w if v is not None else np.ones_like(w)
                exp = ww / np.array(var)
                if v is None:
                    e0n, m0n, _ = fit(algo, x, p, gen.wdict(exp), d + '/n')
                before = None if v is None else v.copy()
                pp = dict(p, normalize_weights=True, savedir='%s/r%s' % (d, name))
                at = '%s on %d ranks, shape %r, %s data, normalised weights given %s: ' % (algo, ranks, SHAPES[si], kind, name)
                rep.case('%s/%d/%d/%s/%s' % (algo, si, ranks, kind, name), algo=algo, shape=shape, ranks=ranks, form=name)
                if ranks:
                    r = spmd.launch(ranks, program, (algo, x, pp, None if v is None else gen.wdict(v)), root=d)
                    if not r.ok():
                        rep.bad('run', at + r.describe())
                        return rep
                    es = r.values
                else:
                    es = [fit(algo, x, pp, None if v is None else gen.wdict(v), pp['savedir'])[0]]
                if v is not None and not np.array_equal(v, before):
                    rep.bad('input', at + 'the weights passed were modified')
                    return rep
                q = [os.path.join(b, 'weights.npy') for b, _, fs in os.walk(pp['savedir']) if 'weights.npy' in fs]
                got = np.load(q[0])
                if not cmp.close(got.ravel(), exp.ravel(), 1e-9):
                    first = w[..., 0].copy()
                    first[..., 0] = first[..., 0] / var[0]
                    if name == 'noaxis' and cmp.close(got.ravel(), first.ravel(), 1e-9):
                        rep.bad('normalize-no-variable-axis', at + 'only the first slice was divided by the variance')
                        continue
                    if name == 'noaxis' and ranks:
                        # every rank divides the first slice of its own part
                        alt = rankwise(w[..., 0], ranks, var[0])
                        if cmp.close(got.ravel(), alt.ravel(), 1e-9):
                            rep.bad('normalize-no-variable-axis', at + 'only the first slice was divided by the variance')
                            continue
                    rep.bad('normalize', at + 'stored weights: ' + cmp.err(got.ravel(), exp.ravel()))
                    return rep
                for e in es:
                    ee = e[None] if e.ndim == 1 else e
                    if not cmp.close(ee, e0n if v is None else e0, 1e-8):
                        rep.bad('normalize', at + 'eigenvalues: ' + cmp.err(ee, e0n if v is None else e0))
                        return rep
    return rep


STILL = [(0., 0), (.1, 0), (1e5 + .3, 0), (-7.77e-5, 0), (1e3, 1e-6), (0., 1e-12), (-4e-9, 1e-14), (1e9, 1.)]


def t_still(ctx, si, algo, ranks):
    '''variables that do not vary keep their weights; others, however little they vary, are normalised.'''
    rep = Rep()
    shape = SHAPES[si][0]
    w = gen.weights(ctx.seed, shape, 2)
    p = api.params(n_dft=5, dt=0.5, xdim=len(shape), nv=2, overlap=40, n_modes_save=3)
    with ctx.tmp() as d, quiet():
        for k, (c, amp) in enumerate(STILL):
            x = gen.field(ctx.seed, 14, shape, 2, 'real')
            y = x[..., 1] - x[..., 1].mean()
            x[..., 1] = c + amp * y
            dev = x[..., 1] - c
            var = [np.var(x[..., 0]), np.mean((dev - dev.mean()) ** 2) if amp else 1.]
            exp = w / np.array(var)
            rep.case('still/%d/%s/%d/%d' % (si, algo, ranks, k), algo=algo, ranks=ranks)
            at = '%s on %d ranks, shape %r, a variable around %g that varies by %g: ' % (algo, ranks, shape, c, amp)
            pp = dict(p, normalize_weights=True, savedir='%s/r%d' % (d, k))
            if ranks:
                r = spmd.launch(ranks, program, (algo, x, pp, gen.wdict(w)), root=d)
                if not r.ok():
                    rep.bad('run', at + r.describe())
                    return rep
                es = r.values
            else:
                try:
                    es = [fit(algo, x, pp, gen.wdict(w), pp['savedir'])[0]]
                except Exception as e:
                    rep.bad('run', at + 'raised %r' % e)
                    return rep
            q = [os.path.join(b, 'weights.npy') for b, _, fs in os.walk(pp['savedir']) if 'weights.npy' in fs]
            got = np.load(q[0]).reshape(exp.shape)
            if not np.abs(got / exp - 1).max() < 1e-5:
                rep.bad('still', at + 'stored weights: ' + cmp.err(got[..., 1].ravel(), exp[..., 1].ravel()))
                return rep
            e0 = fit(algo, x, p, gen.wdict(got), '%s/a%d' % (d, k))[0]
            for e in es:
                if not cmp.close(e[None] if e.ndim == 1 else e, e0, 1e-6):
                    rep.bad('still', at + 'eigenvalues: ' + cmp.err(e, e0))
                    return rep
    return rep


def rankwise(w, n, var):
    out = w.copy()
    ax = int(np.argmax(w.shape))
    N = w.shape[ax]
    s = 0
    for r in range(n):
        m = N // n + (1 if r < N % n else 0)
        if m:
            idx = [np.s_[:]] * w.ndim
            idx[ax] = np.s_[s:s + m]
            part = out[tuple(idx)].copy()
            part[..., 0] = part[..., 0] / var
            out[tuple(idx)] = part
        s += m
    return out


def t_apply(ctx, si):
    '''apply_normalization itself, serial.'''
    rep = Rep()
    shape, nv = SHAPES[si]
    with quiet():
        for kind in ('real', 'complex'):
            x = gen.field(ctx.seed, 7, shape, nv, kind)
            w = gen.weights(ctx.seed, shape, nv)
            for wt in (w, np.ones(shape + (nv,), dtype=int), w.astype(np.float32)):
                b, xb = wt.copy(), x.copy()
                g = api.wts.apply_normalization(x, wt, nv)
                var = np.array([np.mean(np.abs(x[..., i] - x[..., i].mean()) ** 2) for i in range(nv)])
                rep.case('apply/%d/%s/%s' % (si, kind, wt.dtype), shape=shape, variables=nv)
                if not cmp.close(g, wt / var, 1e-6 if wt.dtype == np.float32 else 1e-12):
                    rep.bad('apply', 'shape %r: apply_normalization: %s' % (SHAPES[si], cmp.err(g, wt / var)))
                if not np.array_equal(wt, b) or not np.array_equal(x, xb):
                    rep.bad('input', 'shape %r: apply_normalization modified its input' % (SHAPES[si],))
                g = api.wts.apply_normalization(x, wt, nv, method='none')
                if not cmp.close(g, wt, 1e-12):
                    rep.bad('apply', 'shape %r: weights changed without normalisation' % (SHAPES[si],))
                if rep.viol:
                    return rep
    return rep


def t_geo(ctx, a):
    rep = Rep()
    for b in range(1, 9):
        for nv in (1, 2, 3):
            for R in (None, 1, 2.5, 6371):
                kw = {} if R is None else {'R': R}
                lat = np.linspace(-np.pi / 2, np.pi / 2, a)
                dlat = np.pi / (a - 1) * np.array([0.5] + [1] * (a - 2) + [0.5])
                dlon = 2 * np.pi / b
                e2 = (R or 1) ** 2 * np.abs(np.cos(lat) * dlat)[:, None] * np.full((1, b), dlon)
                for c in (0, 1, 2, 3):
                    g = api.wts.geo_trapz_3D(a, b, c, nv, **kw) if c else api.wts.geo_trapz_2D(a, b, nv, **kw)
                    e = np.repeat(e2[:, :, None], c, axis=2) if c else e2
                    e = np.repeat(e[..., None], nv, axis=-1)
                    at = 'geo_trapz_%dD, %d latitudes, %d longitudes%s, %d variables, radius %r: ' % (
                        3 if c else 2, a, b, ', %d levels' % c if c else '', nv, R)
                    rep.case('%d/%d/%d/%d/%s' % (a, b, c, nv, R), latitudes=a, longitudes=b, levels=c, variables=nv)
                    w = np.asarray(g['weights'])
                    if not isinstance(g.get('weights_name'), str):
                        rep.bad('name', at + 'no name')
                    if nv == 1 and w.ndim == e.ndim - 1:
                        w = w[..., None]
                    if w.shape != e.shape:
                        rep.bad('shape', at + 'weights of shape %r instead of %r' % (w.shape, e.shape))
                        return rep
                    sc = np.abs(e).max()
                    if not cmp.close(w[:, 1:], e[:, 1:], 1e-12, sc):
                        rep.bad('area', at + 'weights: ' + cmp.err(w[:, 1:], e[:, 1:]))
                        return rep
                    if not cmp.close(w[:, :1], e[:, :1], 1e-12, sc):
                        if (w[:, 0] == 0).all():
                            rep.bad('geo-first-longitude', at + 'the first longitude has no weight')
                        else:
                            rep.bad('area', at + 'weights: ' + cmp.err(w[:, :1], e[:, :1]))
                            return rep
    return rep
