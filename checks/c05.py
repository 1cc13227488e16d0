'''C05: global statistics do not depend on the distribution over ranks.'''
import itertools
import numpy as np

from mc import api, gen, spmd
from mc.core import Rep, quiet

PROP = 'C05'
LEVEL = 'model_checking'
RULE = ('every way to spread 0..6 values over 1..6 ranks (empty ranks included) x element type x reduction association: '
        'mean, variance and count, also around a mean much larger than the variations; every element type and shape: sum over ranks; every split of a field along each '
        'axis: variance-normalised weights; all on the simulated MPI, compared with plain NumPy on the whole data')
ASSUMPTIONS = ['MPI is simulated (mc/fake/mpi4py, mc/sim.py); conformance with the installed Open MPI is checked by C02']

TYPES = ['<f8', '<f4', '<i4', '<i8', '<c16', '>f8', '<c8']
ASSOC = [{'assoc': 1}, {'assoc': -1}]


def compositions(total, n):
    if n == 1:
        yield (total,)
        return
    for k in range(total + 1):
        for r in compositions(total - k, n - 1):
            yield (k,) + r


def plan(tier, seed):
    items = []
    for n in range(1, 7 if tier == 'quick' else 9):
        for a in (0, 1):
            for t in range(len(TYPES)):
                items.append(('t_var', [n, t, a]))
            items.append(('t_offset', [n, a]))
            items.append(('t_sum', [n, a]))
            items.append(('t_norm', [n, a]))
    return items


def values(seed, N, t):
    r = gen.rng('c05', seed, N, t)
    x = r.standard_normal(N) * 3 + r.choice([-40., 0., 7.])
    if np.dtype(t).kind == 'c':
        x = x + 1j * r.standard_normal(N) * 2
    if np.dtype(t).kind == 'i':
        x = np.round(x)
    return x.astype(t)


def tol(t):
    return 2e-4 if np.dtype(t).newbyteorder('=') in (np.float32, np.complex64) else 1e-10


def spread(N, n, t, tier):
    if t == 0 or tier != 'quick':
        return list(compositions(N, n))
    c = list(compositions(N, n))
    return c[::max(1, len(c) // 12)]


def p_var(comm, cases, seed, t):
    out = []
    for N, c in cases:
        s = sum(c[:comm.rank])
        x = values(seed, N, t)[s:s + c[comm.rank]]
        keep = x.copy()
        out.append(api.par.pvar(x, comm) + (bool(np.array_equal(x, keep)),))
    return out


def t_var(ctx, n, ti, a):
    rep = Rep()
    t = TYPES[ti]
    cases = [(N, c) for N in range(1, 7 if n < 6 else 6) for c in spread(N, n, ti, ctx.tier)]
    cases += [(N, c) for N in (5003, 70000) for c in sorted({(N,) + (0,) * (n - 1), (0,) * (n - 1) + (N,), (1,) * (n - 1) + (N - n + 1,),
                                                            tuple(N // n + (i < N % n) for i in range(n))})]
    with quiet(), ctx.tmp() as d:
        r = spmd.launch(n, p_var, (cases, ctx.seed, t), env=ASSOC[a], root=d)
        rep.transitions += r.mpi_ops
        rep.states += r.mpi_ops + 1
        if not r.ok():
            rep.bad('run', 'variance on %d ranks: %s' % (n, r.describe()))
            return rep
        for i, (N, c) in enumerate(cases):
            x = values(ctx.seed, N, t).astype('c16' if np.dtype(t).kind == 'c' else 'f8')
            m = x.mean()
            v = np.mean(np.abs(x - m) ** 2)
            scale = np.abs(x).max()
            rep.case('var/%s/%r/%d' % (t, c, a), nontrivial=n > 1, type=t, spread=c)
            for k in range(n):
                gv, gm, gn, same = r.values[k][i]
                at = 'rank %d, %d values of type %s spread as %r: ' % (k, N, t, c)
                if gn != N:
                    rep.bad('count', at + 'count %r' % gn)
                elif not np.abs(gm - m) <= tol(t) * scale:
                    rep.bad('mean', at + 'mean %r instead of %r' % (gm, m))
                elif not np.abs(gv - v) <= tol(t) * max(scale ** 2, 1):
                    rep.bad('variance', at + 'variance %r instead of %r' % (gv, v))
                elif not same:
                    rep.bad('input', at + 'the data was modified')
                elif (gv, gm) != r.values[0][i][:2]:
                    rep.bad('ranks', at + 'another answer than on rank 0')
                if rep.viol:
                    return rep
    return rep


def off_cases(n):
    return [(N, c) for N in (2, 3, 5, 6, 5003) for c in sorted({(N,) + (0,) * (n - 1), (0,) * (n - 1) + (N,),
            (1,) + (0,) * (n - 2) + (N - 1,) if n > 1 else (N,), tuple(N // n + (i < N % n) for i in range(n)),
            tuple(N // n + (n - 1 - i < N % n) for i in range(n))})]


def off_values(seed, N, t, off):
    r = gen.rng('c05o', seed, N, t)
    x = np.round(r.standard_normal(N) * 40) / 8 + off
    if np.dtype(t).kind == 'c':
        x = x + 1j * (np.round(r.standard_normal(N) * 16) / 8 - off)
    return x.astype(t)


def p_offset(comm, cases, seed):
    out = []
    for (N, c), t, off in cases:
        s = sum(c[:comm.rank])
        out.append(api.par.pvar(off_values(seed, N, t, off)[s:s + c[comm.rank]], comm))
    return out


def t_offset(ctx, n, a):
    '''A mean that is much larger than the variations.'''
    rep = Rep()
    cases = [(c, t, off) for c in off_cases(n) for t in ('<f8', '<i8', '<c16') for off in (1e6, -3e7)]
    with quiet(), ctx.tmp() as d:
        r = spmd.launch(n, p_offset, (cases, ctx.seed), env=ASSOC[a], root=d)
        rep.transitions += r.mpi_ops
        rep.states += r.mpi_ops + 1
        if not r.ok():
            rep.bad('run', 'variance on %d ranks: %s' % (n, r.describe()))
            return rep
        for i, ((N, c), t, off) in enumerate(cases):
            x = off_values(ctx.seed, N, t, off)
            x = (x - x[0]).astype('c16' if 'c' in t else 'f8')
            v = np.mean(np.abs(x - x.mean()) ** 2)
            rep.case('offset/%s/%r/%g/%d' % (t, c, off, a), nontrivial=n > 1)
            for k in range(n):
                if not np.abs(r.values[k][i][0] - v) <= 1e-5 * v + 1e-6:
                    rep.bad('variance', 'rank %d, %d values of type %s around %g spread as %r: variance %r instead of %r' % (
                        k, N, t, off, c, r.values[k][i][0], v))
                    return rep
    return rep


SUMS = [((3,), 'C'), ((2, 3), 'C'), ((2, 3), 'F'), ((1,), 'C'), ((2, 2, 2), 'F'), ((0,), 'C'), ((), 'C')]


def p_sum(comm, seed):
    out = []
    for (shape, order), t in itertools.product(SUMS, TYPES):
        x = values((seed, comm.rank if comm else 0), int(np.prod(shape)), t).reshape(shape)
        x = np.asarray(x, order=order)
        keep = x.copy()
        y = api.par.allreduce(x, comm)
        out.append((np.array(y), bool(np.array_equal(x, keep))))
    return out


def t_sum(ctx, n, a):
    rep = Rep()
    with quiet(), ctx.tmp() as d:
        r = spmd.launch(n, p_sum, (ctx.seed,), env=ASSOC[a], root=d)
        rep.transitions += r.mpi_ops
        rep.states += r.mpi_ops + 1
        if not r.ok():
            rep.bad('run', 'sum over %d ranks: %s' % (n, r.describe()))
            return rep
        vals = [(n, r.values)] + ([(1, [p_sum(None, ctx.seed)])] if n == 1 else [])
        for m, vs in vals:
            for i, ((shape, order), t) in enumerate(itertools.product(SUMS, TYPES)):
                e = sum(values((ctx.seed, k), int(np.prod(shape)), t).reshape(shape).astype('c16' if 'c' in t else 'f8')
                        for k in range(m))
                rep.case('sum/%r/%s/%s/%d/%d' % (shape, order, t, m, a), nontrivial=m > 1)
                for k in range(m):
                    g, same = vs[k][i]
                    at = 'rank %d of %d: sum of arrays of shape %r, type %s, order %s: ' % (k, m, shape, t, order)
                    if g.shape != shape or g.dtype.newbyteorder('=') != np.dtype(t).newbyteorder('='):
                        rep.bad('shape', at + 'shape %r, type %s' % (g.shape, g.dtype))
                    elif g.size and not np.abs(g - e).max() <= tol(t) * max(np.abs(e).max(), 50 * m):
                        rep.bad('sum', at + '%r instead of %r' % (g, e))
                    elif not same:
                        rep.bad('input', at + 'the data was modified')
                    if rep.viol:
                        return rep
    return rep


NORM = [((6, 3), 1, 'real'), ((5, 2), 2, 'real'), ((4, 3, 2), 1, 'real'), ((4, 2, 3), 3, 'real'), ((5, 1), 2, 'real'),
        ((4, 3), 2, 'complex'), ((3, 2, 2, 2), 2, 'real')]


def p_norm(comm, seed):
    out = []
    for sh, nv, kind in NORM:
        x = gen.field(seed, sh[0], sh[1:], nv, kind, True)
        w = gen.weights(seed, sh[1:], nv)
        for ax in range(len(sh) - 1):
            xp = api.par.distribute_dimension(x, ax + 1, comm)
            wp = api.par.distribute_dimension(w, ax, comm).copy()
            keep = wp.copy(), xp.copy()
            try:
                g = api.wts.apply_normalization(xp, wp, nv, 'variance', comm)
            except Exception as e:
                g = e
            out.append((g, np.array_equal(keep[0], wp) and np.array_equal(keep[1], xp)))
        out.append((api.wts.apply_normalization(x, w, nv, 'none', comm), True))
    return out


def t_norm(ctx, n, a):
    rep = Rep()
    with quiet(), ctx.tmp() as d:
        r = spmd.launch(n, p_norm, (ctx.seed,), env=ASSOC[a], root=d)
        rep.transitions += r.mpi_ops
        rep.states += r.mpi_ops + 1
        if not r.ok():
            rep.bad('run', 'normalisation on %d ranks: %s' % (n, r.describe()))
            return rep
        for m, vs in [(n, r.values)] + ([(1, [p_norm(None, ctx.seed)])] if n == 1 else []):
            i = 0
            for sh, nv, kind in NORM:
                x = gen.field(ctx.seed, sh[0], sh[1:], nv, kind, True)
                w = gen.weights(ctx.seed, sh[1:], nv)
                var = np.array([np.mean(np.abs(x[..., v] - x[..., v].mean()) ** 2) for v in range(nv)])
                for ax in list(range(len(sh) - 1)) + [None]:
                    at = '%d ranks, data of shape %r with %d variables (%s) split along %r: ' % (m, sh, nv, kind, ax)
                    rep.case('norm/%r/%d/%s/%r/%d/%d' % (sh, nv, kind, ax, m, a), nontrivial=m > 1)
                    parts = [v[i][0] for v in vs]
                    bad = [p for p in parts if isinstance(p, Exception)]
                    if bad:
                        rep.bad('exception', at + 'raised %r' % bad[0])
                        return rep
                    if not all(v[i][1] for v in vs):
                        rep.bad('input', at + 'an argument was modified')
                    e = w / var if ax is not None else w
                    if ax is not None:
                        g = np.concatenate(parts, axis=ax)
                    else:
                        g = parts[0]
                    if g.shape != e.shape or not np.abs(g - e).max() <= 1e-9 * np.abs(e).max():
                        rep.bad('weights', at + 'normalised weights differ from weights / variance of each variable')
                    if rep.viol:
                        return rep
                    i += 1
    return rep
