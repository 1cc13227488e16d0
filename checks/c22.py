'''C22: POD modes are orthonormal and reconstruct the data.'''
import os
import numpy as np

from mc import api, cmp, gen, ref
from mc.core import Rep, quiet

PROP = 'C22'
LEVEL = 'model_checking'
RULE = ('every shape x length x kind of data (generic, repeated eigenvalues, rank deficient, constant, large offset, singular values over four decades) x weights x '
        'mean type x number of saved modes: eigenvalues against the weighted correlation, orthonormal modes, optimal '
        'reconstruction error for every number of modes, exact reconstruction with all, every mode and time selection, splits')
SHAPES = [((5,), 1, True), ((5,), 1, False), ((2, 3), 2, True), ((1,), 3, True), ((2, 2, 2), 1, False), ((3, 1), 2, True), ((1,), 1, True),
          ((2,), 4, True)]
KINDS = ['generic', 'repeated', 'deficient', 'offset', 'tiny', 'constant', 'steep', 'faint']
WS = ['none', 'shaped', 'flat', 'normalized']


def plan(tier, seed):
    return [('t_pod', [s, k, nt]) for s in range(len(SHAPES)) for k in KINDS for nt in ((2, 5, 6) if tier == 'quick' else range(2, 12))] + \
        [('t_pod', [s, k, nt]) for s, k, nt in ((0, 'generic', 40), (2, 'offset', 25), (7, 'generic', 130), (6, 'generic', 101), (0, 'steep', 101))]


def data(seed, si, kind, nt):
    shape, nv, axis = SHAPES[si]
    r = gen.rng('c22', seed, si, kind, nt)
    full = (nt,) + shape + (nv,)
    m = int(np.prod(full[1:]))
    if kind == 'generic':
        x = gen.field(seed, nt, shape, nv)
    elif kind == 'offset':
        x = 100 + gen.field(seed, nt, shape, nv)
    elif kind == 'tiny':
        x = 1e-7 * gen.field(seed, nt, shape, nv)
    elif kind == 'constant':
        x = np.broadcast_to(r.uniform(-2, 2, full[1:]), full).copy()
    elif kind == 'steep':
        k = min(nt, m)
        u, v = np.linalg.qr(r.standard_normal((nt, k)))[0], np.linalg.qr(r.standard_normal((m, k)))[0]
        x = ((u * 10.0 ** (-4.2 * np.arange(k) / max(k - 1, 1))) @ v.T).reshape(full)
    elif kind == 'faint':       # a second pattern with 1e-10 of the energy of the first
        u, v = r.standard_normal((nt, 2)), r.standard_normal((2, m))
        x = ((u * [1, 1e-5]) @ v).reshape(full)
    elif kind == 'deficient':
        x = (r.standard_normal((nt, 1)) @ r.standard_normal((1, m))).reshape(full) + 3
    else:       # repeated eigenvalues: unit impulses at different points
        x = np.zeros((nt, m))
        for t in range(nt):
            x[t, t % m] = 1
        x = x.reshape(full)
    return x


def selections(nt):
    return [('all', list(range(nt))), ('half', list(range(0, nt, 2))), ('Quarter', list(range(0, nt, 4))), ('tenth', list(range(0, nt, 10))), ('hundredth', list(range(0, nt, 100)))] + \
        [([t], [t]) for t in range(nt)] + [([nt - 1, 0], [nt - 1, 0]), ([0, 0], [0, 0]), ([-1], [nt - 1])]


def t_pod(ctx, si, kind, nt):
    rep = Rep()
    shape, nv, axis = SHAPES[si]
    x = data(ctx.seed, si, kind, nt)
    size = x[0].size
    for ws in WS:
        w = np.ones(shape + (nv,)) if ws == 'none' else gen.weights(ctx.seed, shape, nv)
        weff = w
        if ws == 'normalized':
            v = np.array([np.var(x[..., i]) for i in range(nv)])
            if (v <= 1e-9 * np.mean(x ** 2)).any():
                continue
            weff = w / v
        warg = None if ws == 'none' else gen.wdict(w.ravel() if ws == 'flat' else w)
        for mean in ('longtime', 'zero'):
            Y = x.reshape(nt, size)
            mu = Y.mean(axis=0)
            Z = Y - mu if mean == 'longtime' else Y
            W = weff.reshape(-1)
            Q = (Z * W) @ Z.T
            lam = np.linalg.eigvalsh(Q)[::-1]
            scale = max(abs(lam[0]), np.finfo(float).tiny)
            noise = 1e-13 * (np.abs(Y).max() ** 2 * W.sum() * nt)     # rounding of the correlation of the raw data
            for nm in ((1, 2, nt, 99) if ctx.tier == 'quick' else (list(range(1, nt + 1)) if nt < 20 else [1, 3, 12, nt]) + [99]):
                if mean == 'zero' and nm == 2:
                    continue
                split = (nm + si) % 3
                at = 'shape %r, %s, %d snapshots, weights %s, mean %s, %d modes: ' % (SHAPES[si], kind, nt, ws, mean, nm)
                rep.case('%d/%s/%d/%s/%s/%d' % (si, kind, nt, ws, mean, nm), shape=shape, data=kind, nt=nt, weights=ws)
                with ctx.tmp() as d, quiet():
                    xin = x if axis else x[..., 0]
                    lst = [xin] if split == 0 else ([xin[:1], xin[1:]] if split == 1 else xin)
                    keep = xin.copy()
                    p = {'time_step': 0.5, 'n_space_dims': len(shape), 'n_variables': nv, 'savedir': d, 'mean_type': mean, 'n_modes_save': nm,
                         'normalize_weights': ws == 'normalized'}
                    s = api.POD(params=p, weights=warg)
                    s.fit(lst)
                    have = min(nm, nt)
                    e = np.asarray(s.eigs)
                    if e.shape != (nt,):
                        rep.bad('shape', at + 'eigenvalues have shape %r' % (e.shape,))
                        return rep
                    if np.abs(e.imag).max() > 0 or (np.diff(e.real) > 0).any():
                        rep.bad('order', at + 'eigenvalues are not real and in descending order: %r' % (e,))
                        return rep
                    if np.abs(e.real - lam).max() > 1e-11 * scale + noise:
                        rep.bad('eigs', at + 'eigenvalues: ' + cmp.err(e.real, lam))
                        return rep
                    with np.load(os.path.join(s._savedir_sim, 'eigs.npz')) as z:
                        if not np.array_equal(z['eigs'], e):
                            rep.bad('stored', at + 'stored eigenvalues differ from those of the object')
                            return rep
                    phi = np.load(os.path.join(s._savedir_sim, 'modes.npy'))
                    if phi.shape != shape + (nv, have):
                        rep.bad('shape', at + 'stored modes have shape %r' % (phi.shape,))
                        return rep
                    wst = np.load(os.path.join(s._savedir_sim, 'weights.npy'))
                    if not cmp.close(wst, weff, 1e-12):
                        rep.bad('weights', at + 'stored weights: ' + cmp.err(wst, weff))
                        return rep
                    phi = phi.reshape(size, have)
                    strong = [m for m in range(have) if lam[m] > 1e-9 * scale + 10 * noise]
                    G = (phi[:, strong].T * W) @ phi[:, strong]
                    cond = scale / lam[strong[-1]] if strong else 1
                    if not np.isfinite(phi).all() or (strong and np.abs(G - np.eye(len(strong))).max() > 1e-12 * cond * 10 + noise / lam[strong[-1]] * 10):
                        rep.bad('orthonormal', at + 'modes are not orthonormal: largest deviation %.3g' % np.abs(G - np.eye(len(strong))).max())
                        return rep
                    if not project(rep, at, ctx, s, xin, x, nt, size, Y, mu, W, lam, phi, strong, nm, mean, scale, noise):
                        return rep
                    if not np.array_equal(keep, xin):
                        rep.bad('input', at + 'the data was modified')
                        return rep
    return rep


def project(rep, at, ctx, s, xin, x, nt, size, Y, mu, W, lam, phi, strong, nm, mean, scale, noise):
    have = phi.shape[1]
    sels = [None] + ([[have - 1, 0], [0], list(range(have - 1))] if have > 1 else [])
    amp = np.abs(Y).max()
    for mi in sels:
        ids = list(range(have)) if mi is None else mi
        f, c = s.compute_coeffs_op(xin, s._savedir_sim, modes_idx=mi)
        a = np.load(f)
        exp = phi[:, ids].T @ (W[:, None] * (Y - mu).T)
        tol = 1e-10 * max(np.abs(exp).max(), 1e-3 * np.sqrt(W.max()) * amp)
        if a.shape != exp.shape or np.abs(a - exp).max() > tol:
            rep.bad('coeffs', at + 'coefficients of modes %r: ' % (mi,) + cmp.err(a, exp))
            return False
        rec_ref = (phi[:, ids] @ exp).T + mu
        for k, (sel, times) in enumerate(selections(nt)):
            if mi is not None and k % 5:
                continue
            given = k % 3 == 1
            g, h = s.compute_reconstruction(c, coeffs=a if given else None, time_idx=sel)
            r = np.load(g)
            if r.shape != (len(times),) + x.shape[1:]:
                rep.bad('times', at + 'reconstruction for times %r has shape %r instead of %d time steps' % (sel, r.shape, len(times)))
                return False
            r = r.reshape(len(times), size)
            if np.abs(r - rec_ref[times]).max() > 1e-10 * amp:
                rep.bad('times', at + 'reconstruction of modes %r for times %r: ' % (mi, sel) + cmp.err(r, rec_ref[times]))
                return False
        if mi is None:
            g, h = s.compute_reconstruction(c, time_idx='all')
            r = np.load(g).reshape(nt, size)
            if mean == 'longtime':
                # error of the best rank-k approximation, and nothing more
                res = ((r - Y) ** 2 * W).sum()
                best = lam[have:].clip(0).sum()
                if abs(res - best) > 1e-9 * scale + 100 * noise + (1e-18 * amp ** 2 * W.sum() * nt):
                    rep.bad('error', at + 'squared reconstruction error %.6g, the best possible with as many modes is %.6g' % (res, best))
                    return False
            if have == nt and np.abs(r - Y).max() > 1e-5 * amp * (1e-2 if len(strong) == nt or noise < 1e-11 * scale and 'faint' in at else 1):
                rep.bad('exact', at + 'reconstruction with all modes: ' + cmp.err(r, Y))
                return False
    return True
