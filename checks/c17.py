'''C17: oblique projection and reconstruction are exact on the span of the modes.'''
import os
import numpy as np
import yaml

from mc import api, cmp, gen, ref
from mc.core import Rep, quiet

PROP = 'C17'
LEVEL = 'model_checking'
RULE = ('every shape x data kind x spectrum x number of saved modes x frequency band (by periods on and off the grid, by '
        'lists) x mode selection x pseudo-inverse: residual orthogonal to the selected modes, stored modes and mean, data '
        'in the span reconstructed exactly, projection of the reconstruction, every time selection')
SHAPES = [((5,), 1, True), ((5,), 1, False), ((2, 3), 2, True), ((1,), 2, True), ((2, 2, 2), 1, True), ((9,), 1, True), ((3, 1), 1, False),
          ((2,), 4, True), ((60,), 1, True), ((7, 9), 2, True)]
DT = 0.5


def plan(tier, seed):
    return [('t_proj', [s, kind, full, n]) for s in range(8)
            for kind, full in (('real', False), ('real', True), ('complex', False), ('complex', True))
            for n in ((4, 5) if tier == 'quick' else (4, 5, 6, 7, 8))] + [('t_proj', [0, 'real', False, 11]), ('t_proj', [0, 'real', False, 9, 11, 3]),
                                                                                       ('t_proj', [8, 'real', False, 24, 7, 12]), ('t_proj', [9, 'complex', True, 16, 9, 10])]


def bands(n, freq):
    '''(kwargs, expected frequency ids): the selections tried.'''
    nf = len(freq)
    pos = [i for i in range(nf) if freq[i] >= 0]
    out = [({}, list(range(nf)))]
    near = lambda f: int(np.argmin(np.abs(freq - f)))    # noqa
    step = 1 / (n * DT)
    for i in pos:
        for j in pos:
            if j >= i and j > 0:
                for a, b in ((0, 0), (0.3, -0.3), (-0.3, 0.3)):
                    fl, fu = freq[i] + a * step, freq[j] + b * step
                    if fl < 0 or fu <= 0 or near(fl) > near(fu):
                        continue
                    out.append(({'T_lb': 1 / fu, 'T_ub': np.inf if fl == 0 else 1 / fl}, list(range(near(fl), near(fu) + 1))))
    out += [({'freq_idx': [i]}, [i]) for i in range(nf)]
    out += [({'freq_idx': [0, nf - 1]}, [0, nf - 1]), ({'freq_idx': list(range(1, nf))}, list(range(1, nf))),
            ({'freq_idx': np.array([nf - 1, 1])}, [nf - 1, 1])]
    return out


def t_proj(ctx, si, kind, full, n, nblk=3, step=1):
    rep = Rep()
    shape, nv, axis = SHAPES[si]
    w = gen.weights(ctx.seed, shape, nv)
    nt = nblk * n + 2
    r = gen.rng('c17', ctx.seed, si, kind, full, n)
    with ctx.tmp() as d, quiet():
        x = gen.field(ctx.seed, nt, shape, nv, kind)
        for nm in (1, 2, 99) if step == 1 else (4, 99):
            s = api.fit([x if axis else x[..., 0]], api.params(n_dft=n, dt=DT, xdim=len(shape), nv=nv, savedir='%s/m%d' % (d, nm), overlap=50,
                        fullspectrum=full, n_modes_save=nm), gen.wdict(w))
            res = s.savedir_sim
            modes = [np.array(m) for m in api.stored(res)['modes']]
            have = modes[0].shape[-1]
            freq = np.array(s.freq)
            bs = bands(n, freq)[::step]
            for bi, (kw, fi) in enumerate(bs):
                sels = [None] + [q for q in ([0], [have - 1], [have - 1, 0], list(range(have))) if have > 1]
                for mi in sels if bi < 1 or ctx.tier != 'quick' else [sels[(bi + nm) % len(sels)]]:
                    for svd in (False, True) if bi % 4 == 0 or ctx.tier != 'quick' else (bi % 4 == 1,):
                        at = 'shape %r, %s, full %r, n_dft %d, %d modes, selection %r, modes %r, svd %r: ' % (
                            SHAPES[si], kind, full, n, have, kw, mi, svd)
                        rep.case('%d/%s/%d/%d/%d/%d/%r/%d' % (si, kind, full, n, nm, bi, mi, svd), shape=shape, selection=str(kw), modes=mi)
                        if not one(rep, at, d, res, x, axis, w, modes, freq, kw, fi, mi, svd, r, full, kind, bi):
                            return rep
    return rep


def one(rep, at, d, res, x, axis, w, modes, freq, kw, fi, mi, svd, r, full, kind, bi):
    nt = len(x)
    size = x[0].size
    W = w.reshape(-1, 1)
    ids = list(range(modes[0].shape[-1])) if mi is None else mi
    Phi = np.concatenate([modes[f].reshape(size, -1)[:, ids] for f in fi], axis=1)
    op = api.spod_utils.compute_coeffs_op
    data = x if axis else x[..., 0]
    fc, cd = op(data=data, results_dir=res, modes_idx=mi, svd=svd, **kw)
    a = np.load(fc)
    if a.shape != (Phi.shape[1], nt):
        rep.bad('shape', at + 'coefficients of shape %r for %d modes and %d times' % (a.shape, Phi.shape[1], nt))
        return False
    mean = x.reshape(nt, -1).mean(axis=0)
    D = (x.reshape(nt, -1) - mean).T
    with open(os.path.join(cd, 'params_coeffs.yaml')) as f:
        p = yaml.load(f, Loader=yaml.FullLoader)
    lo, hi = min(fi), max(fi)
    exp = {'n_freq_r': len(fi), 'freq_idx_lb': lo, 'freq_idx_ub': hi, 'freq_lb': float(freq[lo]), 'freq_ub': float(freq[hi])}
    for k, v in exp.items():
        if p.get(k) != v:
            rep.bad('band', at + 'stored %s is %r instead of %r' % (k, p.get(k), v))
            return False
    g = np.load(os.path.join(cd, 'modes_r.npy'))
    if g.shape != x.shape[1:] + (Phi.shape[1],) or not np.array_equal(g.reshape(size, -1), Phi):
        rep.bad('modes', at + 'stored modes are not the selected ones (shape %r)' % (g.shape,))
        return False
    g = np.load(os.path.join(cd, 'ltm.npy'))
    if g.shape != x.shape[1:] or not cmp.close(g.ravel(), mean, 1e-12, np.abs(x).max()):
        rep.bad('mean', at + 'stored mean: ' + cmp.err(g.ravel(), mean))
        return False
    sc = np.sqrt(np.max(np.sum(np.abs(D) ** 2 * W, axis=0))) + 1e-30
    res_ = Phi.conj().T @ (W * (D - Phi @ a))
    if not np.abs(res_).max() < 1e-7 * sc:
        rep.bad('residual', at + 'residual is not orthogonal to the modes: %.3g of %.3g' % (np.abs(res_).max(), sc))
        return False
    rec = api.spod_utils.compute_reconstruction
    fr, _ = rec(coeffs_dir=cd, time_idx='all')
    R = np.load(fr)
    E = (Phi @ a + mean[:, None]).T.reshape(x.shape)
    if not cmp.close(R, E, 1e-9, np.abs(x).max()):
        rep.bad('reconstruction', at + 'reconstruction: ' + (cmp.err(R, E)))
        return False
    if bi % 3 == 0:
        times = [('half', range(0, nt, 2)), ('quarter', range(0, nt, 4)), ('tenth', range(0, nt, 10)), ('hundredth', range(0, nt, 100)),
                 ('ALL', range(nt)), ([0], [0]), ([nt - 1, 2, 2], [nt - 1, 2, 2]), (list(range(nt))[::-1], range(nt - 1, -1, -1)), ([3, 1], [3, 1]), ([-1, 0, -nt], [nt - 1, 0, 0])]
        for t, e in times:
            fr2, _ = rec(coeffs_dir=cd, time_idx=t, filename='part', savedir='sub')
            q = np.load(fr2)
            if not cmp.close(q, E[list(e)], 1e-9, np.abs(x).max()):
                rep.bad('times', at + 'reconstruction at times %r: %s' % (t, cmp.err(q, E[list(e)])))
                return False
        b = r.standard_normal(a.shape) + 1j * r.standard_normal(a.shape)
        fr2, _ = rec(coeffs_dir=cd, time_idx='all', coeffs=b, filename='given')
        q, e = np.load(fr2), (Phi @ b + mean[:, None]).T.reshape(x.shape)
        if not cmp.close(q, e, 1e-9):
            rep.bad('given', at + 'reconstruction from given coefficients: ' + cmp.err(q, e))
            return False
    # projecting the reconstruction again
    fc2, cd2 = op(data=R if axis else R[..., 0], results_dir=res, modes_idx=mi, svd=svd, savedir='again', **kw)
    a2 = np.load(fc2)
    big = np.abs(a).max() + 1e-30
    if not np.abs(a2 - a).max() < 1e-5 * big:
        rep.bad('again', at + 'coefficients of the reconstruction: ' + cmp.err(a2, a))
        return False
    # data of other magnitudes
    if bi % 3 == 1:
        for c in (1e-12, 1e9):
            fc2, _ = op(data=data * c, results_dir=res, modes_idx=mi, svd=svd, savedir='scaled', **kw)
            if not cmp.close(np.load(fc2), a * c, 1e-6, big * c):
                rep.bad('magnitude', at + 'data times %g: ' % c + cmp.err(np.load(fc2), a * c))
                return False
    # data in the span
    b = r.standard_normal(a.shape) + 1j * r.standard_normal(a.shape)
    m = r.standard_normal(size) * 5
    Y = (m[:, None] + Phi @ b).T.reshape(x.shape)
    ys = [Y]
    if fi == [0] and kind == 'real':
        ys.append((m[:, None] + Phi.real @ b.real).T.reshape(x.shape))      # modes at frequency zero are real
    for y in ys:
        if y.shape and np.isrealobj(y) and np.abs(Phi.imag).max() > 1e-9:
            continue
        fc3, cd3 = op(data=y if axis else y[..., 0], results_dir=res, modes_idx=mi, svd=svd, savedir='span', **kw)
        f3, _ = rec(coeffs_dir=cd3, time_idx='all')
        q = np.load(f3)
        if not cmp.close(q, y, 1e-6, np.abs(y).max()):
            rep.bad('span', at + 'data in the span of the modes is not reconstructed: ' + cmp.err(q, y))
            return False
    return True
