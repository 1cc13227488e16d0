'''C14: confidence bounds bracket the eigenvalues at the requested level.'''
import math
import numpy as np

from mc import api, cmp, gen, spmd
from mc.core import Rep, quiet

PROP = 'C14'
LEVEL = 'model_checking'
RULE = ('every number of blocks x confidence level (and the default) x spectrum x real/complex data x precision x serial or '
        'rank count: the stored bounds are compared with the chi-squared interval of 2*n_blocks degrees of freedom whose '
        'distribution function is evaluated in closed form, must bracket the eigenvalues and be nested in the level')
LEVELS = [0.6, 0.7, 0.8, 0.9, 0.95, 0.975, 0.99, 0.999, 0.9999, 0.99999]


def plan(tier, seed):
    nb = list(range(2, 13)) + [16, 25, 40] if tier == 'quick' else range(2, 60)
    items = [('t_serial', [b, k, full, dt]) for b in nb for k in ('real', 'complex') for full in (False, True)
             for dt in ('double', 'single')]
    items += [('t_par', [b, n]) for b in (2, 3, 7) for n in (1, 2, 3)]
    return items


def chi2_cdf(x, half):
    '''distribution function of chi-squared with 2*half degrees of freedom.'''
    h, s, t = x / 2, 0.0, 1.0
    for k in range(half):
        s += t
        t *= h / (k + 1)
    return 1 - math.exp(-h) * s


def check(rep, at, st, nb, c, dtype):
    e, u, l = (np.asarray(st[k]) for k in ('eigs', 'eigs_c_u', 'eigs_c_l'))
    for name, a in (('eigs', e), ('eigs_c_u', u), ('eigs_c_l', l)):
        if np.iscomplexobj(a) and np.abs(a.imag).max() > 0 or not np.isfinite(a).all() or a.shape != e.shape or a.shape[1] != nb:
            rep.bad('type', at + 'stored %s is not a finite real table of %d columns' % (name, nb))
            return None
    e, u, l = e.real, u.real, l.real
    big = e > 1e-9 * e.max()
    if not ((l < e) & (e < u))[big].all():
        rep.bad('bracket', at + 'eigenvalue %r has bounds %r and %r' % (e[big][0], l[big][0], u[big][0]))
        return None
    tol = 1e-6
    for name, a, p in (('lower', l, c), ('upper', u, 1 - c)):
        q = 2 * nb * e[big] / a[big]
        d = np.array([chi2_cdf(v, nb) for v in q])
        if np.abs(d - p).max() > tol:
            rep.bad('quantile', at + '%s bound corresponds to the quantile %.6f instead of %.6f' % (name, d[np.abs(d - p).argmax()], p))
            return None
    return l, u, e


def t_serial(ctx, nb, kind, full, dtype):
    rep = Rep()
    n = 5 if nb % 2 else 6
    with ctx.tmp() as d, quiet():
        for ov in (0, 50):
            k = math.ceil(n * ov / 100)
            for extra in (0, n - k - 1):
                nt = k + nb * (n - k) + extra
                shape, nv = [((7,), 1), ((2, 3), 2), ((3, 2, 2), 1)][nb % 3]
                x = gen.field(ctx.seed, nt, shape, nv, kind)
                prev = None
                for c in LEVELS + [None]:
                    p = api.params(n_dft=n, dt=0.5, xdim=len(shape), nv=nv, savedir=d, overlap=ov, fullspectrum=full, dtype=dtype)
                    if c:
                        p['conf_level'] = c
                    s = api.fit([x], p)
                    st = api.stored(s.savedir_sim, modes=False)
                    rep.case('%d/%s/%d/%s/%d/%d/%s' % (nb, kind, full, dtype, ov, extra, c), blocks=nb, level=c, kind=kind, full=full)
                    at = '%d blocks, level %r, %s data, full %r, overlap %d, %s: ' % (nb, c, kind, full, ov, dtype)
                    r = check(rep, at, st, nb, c or 0.95, dtype)
                    if r is None:
                        return rep
                    l, u, e = r
                    if not np.array_equal(e, np.asarray(s.eigs).real):
                        rep.bad('eigs', at + 'stored and returned eigenvalues differ')
                        return rep
                    if c and prev is not None and not ((l <= prev[0]) & (u >= prev[1])).all():
                        rep.bad('nested', at + 'interval is not wider than that of the level before')
                        return rep
                    prev = (l, u)
    return rep


def program(comm, x, p):
    a = api.attrs(api.fit([x], p, None, api.Standard, comm))
    a['stored'] = api.stored(a['dir'], modes=False)
    return a


def t_par(ctx, nb, n):
    rep = Rep()
    with ctx.tmp() as d, quiet():
        for c in (0.6, 0.95):
            for full in (False, True):
                x = gen.field(ctx.seed, 4 * nb + 1, (5,), 1)
                r = spmd.launch(n, program, (x, api.params(n_dft=4, dt=0.5, savedir=d, overlap=0, conf_level=c, fullspectrum=full)), root=d)
                at = '%d ranks, %d blocks, level %r, full %r: ' % (n, nb, c, full)
                rep.case('p%d/%d/%s/%d' % (nb, n, c, full), blocks=nb, ranks=n, level=c)
                if not r.ok():
                    rep.bad('run', at + r.describe())
                    return rep
                for v in r.values:
                    if check(rep, at, v['stored'], nb, c, 'double') is None:
                        return rep
    return rep
