'''C28: error norms are norms of the difference.'''
import itertools
import numpy as np

from mc import api, gen
from mc.core import Rep, quiet

PROP = 'C28'
LEVEL = 'model_checking'
RULE = ('every pair of arrays with entries in a small set of values (sizes 1 to 4, shapes with time first), every norm and '
        'time step, against the definition; each also with the difference scaled, reference and data exchanged, other '
        'memory orders and element types (all integer types at their limits); arguments unchanged; the energy spectrum of every signal of 2 to 7 (9) such entries, by the '
        'definition of the transform, with circular shifts and real, complex and integer elements')
NORMS = ['l1', 'l2', 'linf', 'l1_rel', 'l2_rel', 'linf_rel']
V6, V4, V3 = [-2.0, -1.0, 0.0, 0.5, 1.0, 3.0], [-1.5, 0.0, 1.0, 2.0], [-1.0, 0.5, 2.0]
SETS = [((1,), V6), ((2,), V6), ((1, 2), V4), ((3,), V4), ((2, 2), V3), ((4,), V3), ((2, 1, 2), V3)]


def plan(tier, seed):
    it = [('t_l', [i, p]) for i in range(len(SETS)) for p in range(4)] + [('t_h', [i, p]) for i in range(len(SETS)) for p in range(4)]
    return it + [('t_forms', [])] + [('t_spectrum', [n]) for n in ((2, 3, 4, 5, 6, 7) if tier == 'quick' else (2, 3, 4, 5, 6, 7, 8, 9))]


def definition(e, r, norm):
    n = e.size
    e = np.abs(e).ravel()
    if norm.endswith('_rel'):
        e = e / np.abs(r).ravel()
    return {'l1': e.sum() / n, 'l2': np.sqrt((e ** 2).sum()) / n, 'linf': e.max()}[norm.split('_')[0]]


def hdef(e, dt):
    return np.sqrt(sum(dt * (np.abs((e[i] - e[i - 1]) / dt) ** 2).sum() for i in range(1, len(e))))


def pairs(i, part):
    shape, vals = SETS[i]
    m = int(np.prod(shape))
    for k, t in enumerate(itertools.product(vals, repeat=2 * m)):
        if k % 4 == part:
            yield np.array(t[:m]).reshape(shape), np.array(t[m:]).reshape(shape)


def off(a, b):
    return not abs(a - b) <= 1e-12 * max(1, abs(b))


def t_l(ctx, i, part):
    rep = Rep()
    f = api.errs.compute_l_errors
    with quiet():
        for a, b in pairs(i, part):
            rel = not (b == 0).any()
            for nm in NORMS if rel else NORMS[:3]:
                rep.case('l/%d/%s/%s/%s' % (i, nm, a.tobytes().hex(), b.tobytes().hex()), data=a.tolist(), reference=b.tolist(), norm=nm)
                a0, b0 = a.copy(), b.copy()
                v = f(data=a, data_ref=b, norm_type=nm)
                at = '%s of %r and %r: ' % (nm, a.tolist(), b.tolist())
                if np.ndim(v) != 0 or off(float(v), definition(a - b, b, nm)):
                    rep.bad('value', at + '%r instead of %r' % (v, definition(a - b, b, nm)))
                elif (v == 0) != np.array_equal(a, b) or v < 0:
                    rep.bad('norm', at + '%r' % (v,))
                elif off(float(f(data=b + 4 * (a - b), data_ref=b, norm_type=nm)), 4 * float(v)):
                    rep.bad('scale', at + 'does not scale with the difference')
                elif off(float(f(data=2 * b - a, data_ref=b, norm_type=nm)), float(v)):
                    rep.bad('sign', at + 'depends on the sign of the difference')
                if not (np.array_equal(a, a0) and np.array_equal(b, b0)):
                    rep.bad('input', at + 'an argument was changed')
                if rep.viol:
                    return rep
    return rep


def t_h(ctx, i, part):
    rep = Rep()
    f = api.errs.compute_h_errors
    with quiet():
        for a, b in pairs(i, part):
            for dt in (0.25, 1, 3.0):
                rep.case('h/%d/%r/%s/%s' % (i, dt, a.tobytes().hex(), b.tobytes().hex()), data=a.tolist(), reference=b.tolist(), dt=dt)
                a0, b0 = a.copy(), b.copy()
                v = f(data=a, data_ref=b, dt=dt, norm_type='h1')
                at = 'h1 of %r and %r, time step %r: ' % (a.tolist(), b.tolist(), dt)
                e = hdef(a - b, dt)
                if np.ndim(v) != 0 or off(float(v), e):
                    rep.bad('hvalue', at + '%r instead of %r' % (v, e))
                elif (v == 0) != (np.diff(a - b, axis=0) == 0).all() or v < 0:
                    rep.bad('hnorm', at + '%r' % (v,))
                if not (np.array_equal(a, a0) and np.array_equal(b, b0)):
                    rep.bad('input', at + 'an argument was changed')
                if rep.viol:
                    return rep
    return rep


def t_forms(ctx):
    '''shapes, orders and types; unknown norms are refused.'''
    rep = Rep()
    r = gen.rng('c28', ctx.seed)
    with quiet():
        for shape in [(5,), (4, 3), (3, 2, 4), (2, 3, 1, 2), (6, 1), (140,), (5, 130), (40, 9, 11), (1, 300), (300, 1)]:
            a, b = r.standard_normal(shape), r.standard_normal(shape)
            for form in ('C', 'F', 'FC', 'CF', 'strided', 'single', 'complex', 'big'):
                x, y = a, b
                if form in ('F', 'FC'):
                    x = np.asfortranarray(a)
                if form in ('F', 'CF'):
                    y = np.asfortranarray(b)
                if form == 'strided':
                    x = np.repeat(a, 2, axis=-1)[..., ::2]
                if form == 'single':
                    x, y = a.astype(np.float32), b.astype(np.float32)
                if form == 'complex':
                    x, y = a + 1j * b, b - 2j * a
                if form == 'big':
                    x, y = a.astype('>f8'), b.astype('>f8')
                for nm in NORMS + ['h1']:
                    rep.case('form/%r/%s/%s' % (shape, form, nm), shape=shape, form=form, norm=nm)
                    at = '%s, shape %r, %s: ' % (nm, shape, form)
                    xd = np.asarray(x, dtype=complex if form == 'complex' else float)
                    yd = np.asarray(y, dtype=complex if form == 'complex' else float)
                    if nm == 'h1':
                        v, e = api.errs.compute_h_errors(data=x, data_ref=y, dt=0.5, norm_type='h1'), hdef(xd - yd, 0.5)
                    else:
                        v, e = api.errs.compute_l_errors(data=x, data_ref=y, norm_type=nm), definition(xd - yd, yd, nm)
                    if not abs(v - e) <= (1e-3 if form == 'single' else 1e-11) * max(abs(e), 1e-3):
                        rep.bad('form', at + '%r instead of %r' % (v, e))
                        return rep
        for ty in ('i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', '?', '>u2', 'f4', 'g'):
            lo, hi = {'i1': (-128, 127), 'u1': (0, 255), '?': (0, 1)}.get(ty, (0 if 'u' in ty else -30000, 30000))
            for shape in [(6,), (3, 4)]:
                a, b = (r.integers(lo, hi + 1, shape).astype(float) for _ in 'ab')
                a.flat[0], b.flat[0], a.flat[-1], b.flat[-1] = lo, hi, hi, lo
                b[b == 0] = 1
                for tx, ty2 in ((ty, ty), (ty, 'f8'), ('f8', ty)):
                    x, y = a.astype(tx), b.astype(ty2)
                    for nm in NORMS + ['h1']:
                        rep.case('type/%r/%s/%s/%s' % (shape, tx, ty2, nm), shape=shape, types=(tx, ty2), norm=nm)
                        if nm == 'h1':
                            v, e = api.errs.compute_h_errors(data=x, data_ref=y, dt=0.5, norm_type='h1'), hdef(a - b, 0.5)
                        else:
                            v, e = api.errs.compute_l_errors(data=x, data_ref=y, norm_type=nm), definition(a - b, b, nm)
                        if not abs(float(v) - e) <= 1e-5 * max(abs(e), 1e-3):
                            rep.bad('types', '%s of %s %r and %s %r: %r instead of %r' % (nm, tx, x.tolist(), ty2, y.tolist(), v, e))
                            return rep
        for nm in ('l3', '', 'L1 ', 'h2', 'rel'):
            for f, kw in ((api.errs.compute_l_errors, {}), (api.errs.compute_h_errors, {'dt': 1.0})):
                rep.case('refuse/%s/%s' % (nm, f.__name__))
                try:
                    v = f(data=a, data_ref=b, norm_type=nm, **kw)
                except Exception:  # noqa
                    continue
                rep.bad('refuse', 'unknown norm %r gave %r' % (nm, v))
    return rep


def spectrum(u):
    n = u.size
    k = np.arange(n)
    c = np.exp(-2j * np.pi * np.outer(k, k) / n) @ u / n
    e = .5 * np.abs(c) ** 2
    return np.array([0.] + [.5 * (e[i] + e[n - i]) for i in range(1, n // 2)]) if n > 1 else np.zeros(0)


def t_spectrum(ctx, n):
    rep = Rep()
    f = api.post.compute_energy_spectrum
    vals = V4 if n < 6 else V3
    for t in itertools.product(vals, repeat=n) if n < 8 else itertools.product(V3[1:], repeat=n):
        for cplx in (False, True):
            u = np.array(t) * (1 if not cplx else np.exp(.7j * np.arange(n)))
            rep.case('spectrum/%r/%d' % (t, cplx))
            u0 = u.copy()
            got, want = np.asarray(f(u)), spectrum(u)
            at = 'spectrum of %r: ' % (u.tolist(),)
            if got.shape != (n // 2,) or not np.allclose(got, want, rtol=1e-9, atol=1e-13):
                rep.bad('spectrum', at + '%r instead of %r' % (got.tolist(), want.tolist()))
            elif not np.allclose(np.asarray(f(np.roll(u, 1))), want, rtol=1e-9, atol=1e-13):
                rep.bad('shift', at + 'depends on the origin')
            if not np.array_equal(u, u0):
                rep.bad('input', at + 'the argument was changed')
            if rep.viol:
                return rep
    return rep
