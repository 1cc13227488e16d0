'''Comparison of what two runs produced.'''
import numpy as np

from . import ref


def close(a, b, rtol, scale=None):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not (np.isfinite(a).all() and np.isfinite(b).all()):
        return bool(np.array_equal(np.nan_to_num(a, nan=1.25e77), np.nan_to_num(b, nan=1.25e77)))
    s = max(np.abs(a).max(), np.abs(b).max()) if scale is None else scale
    return bool(np.abs(a - b).max() <= rtol * s + 1e-300)


def err(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return 'shapes %r and %r' % (a.shape, b.shape)
    if a.size == 0:
        return 'equal'
    with np.errstate(all='ignore'):
        d = np.abs(a - b)
    i = np.unravel_index(np.nanargmax(d) if np.isfinite(d).any() else 0, a.shape)
    return 'largest difference %.3g at %r (%r instead of %r)' % (
        np.nanmax(d) if np.isfinite(d).any() else np.nan, tuple(int(x) for x in i), a[i], b[i])


ATTRS = ('n_blocks', 'n_modes_save', 'n_freq', 'nt', 'nx', 'nv', 'xshape', 'n_modes')


def spod_attrs(got, exp, rtol, names=ATTRS):
    out = []
    for k in names:
        if got[k] != exp[k]:
            out.append(('attr', '%s is %r, expected %r' % (k, got[k], exp[k])))
    for k in ('eigs', 'freq'):
        if not close(got[k], exp[k], rtol):
            out.append((k, '%s: %s' % (k, err(got[k], exp[k]))))
    return out


def spod_stored(got, exp, rtol, mrtol, lam=None, same_dtype=True):
    '''got, exp: api.stored() results.  lam: eigenvalues (n_freq, n_blocks) used to
    decide which modes are determined up to a phase.'''
    out = []
    for k in sorted(set(exp) - {'params', 'modes'}):
        if k not in got:
            out.append(('missing', 'stored %s missing' % k))
            continue
        g, e = np.asarray(got[k]), np.asarray(exp[k])
        if not close(g, e, rtol):
            out.append(('stored-' + k, 'stored %s: %s' % (k, err(g, e))))
        elif same_dtype and g.dtype != e.dtype:
            out.append(('dtype-' + k, 'stored %s has dtype %s instead of %s' % (k, g.dtype, e.dtype)))
    lam = np.asarray(exp['eigs'] if lam is None else lam).real
    if len(got['modes']) != len(exp['modes']):
        out.append(('modes', 'number of mode files %d instead of %d' % (len(got['modes']), len(exp['modes']))))
        return out
    for f, (g, e) in enumerate(zip(got['modes'], exp['modes'])):
        if g.shape != e.shape:
            out.append(('modes', 'modes at frequency %d have shape %r instead of %r' % (f, g.shape, e.shape)))
            continue
        if same_dtype and g.dtype != e.dtype:
            out.append(('modes', 'modes at frequency %d have dtype %s instead of %s' % (f, g.dtype, e.dtype)))
        for m in range(g.shape[-1]):
            if not ref.separated(lam[f], m):
                continue
            gap = min([abs(lam[f][m] - lam[f][j]) for j in range(len(lam[f])) if j != m] + [lam[f][m]])
            tol = mrtol * max(1.0, lam[f][0] / gap, (lam[f][0] / lam[f][m]) ** 0.5)
            d = ref.mode_distance(e[..., m], g[..., m])
            if not d <= tol:
                out.append(('modes', 'mode %d at frequency %d differs by %.3g (relative)' % (m, f, d)))
                break
    return out
