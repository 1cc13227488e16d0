'''C13: modes are orthonormal, eigenvalues are ordered, energy is conserved.'''
import os
import numpy as np

from mc import api, cmp, gen, ref, spmd
from mc.core import Rep, quiet

PROP = 'C13'
LEVEL = 'model_checking'
RULE = ('every data set (generic, repeated eigenvalues, rank deficient, travelling wave, block or point missing, spectrum that falls steeply) x shape x '
        'block length x overlap x spectrum x saved modes x mean x precision, batch and streaming: Gram matrix of the saved '
        'modes with non-negligible energy, order and sign of the eigenvalues, their sum against the weighted power of the '
        'windowed data, and the answers of check_orthogonality for pairs of modes; the answers for stored modes with every '
        'prescribed weighted product (zero, one, signs, real, imaginary and mixed deviations, near the tolerance), serially '
        'and on simulated ranks')
OVERLAPS = [0, 1, -1, 1j, -1j, .5, -.5, .5j, -.5j, 1e-3, -1e-3, 1e-3j, -1e-3j, 1 + .5j, 1 - .5j, 1 + 1e-3j, 1 - 1e-3j, 1 + 1e-3, 1 - 1e-3,
            .5 + .5j, 1e-8, -1e-8, 1e-8j, 1 + 1e-8j, 1 - 1e-8, 2, -2j, 1e-5, 1e-5j, 1 + 1e-5j, 1 - 1e-5]

SHAPES = [((6,), 1), ((2, 3), 2), ((3, 2, 2), 1), ((2,), 1), ((1,), 4), ((45,), 1), ((5, 9), 2)]
DATA = ['generic', 'equal', 'pairs', 'wave', 'lowrank', 'missing', 'zero', 'constant', 'tiny', 'huge', 'weak', 'steep']


def plan(tier, seed):
    ns = (4, 6, 7) if tier == 'quick' else (4, 5, 6, 7, 8, 9, 12)
    big = [('t_batch', [s, k, n, [[12, 0], [5, 50]]]) for s, k, n in ((5, 'generic', 32), (6, 'weak', 15), (6, 'wave', 16))]
    return (big + [('t_batch', [s, k, n]) for s in range(5) for k in DATA for n in ns] +
            [('t_answer', [s, n]) for s in range(len(SHAPES)) for n in ((0, 2) if tier == 'quick' else (0, 1, 2, 3))] +
            [('t_stream', [s, k, n]) for s in range(5) for k in DATA if k not in ('zero', 'constant') for n in ns])


def make(seed, kind, n, nb, shape, nv, w, cplx):
    '''(nt, *shape, nv) data of nb non-overlapping blocks of n.'''
    nx = int(np.prod(shape)) * nv
    r = gen.rng('c13', seed, kind, n, nb, shape, nv, cplx)
    nt = n * nb
    x = gen.field(seed, nt, shape, nv, 'complex' if cplx else 'real').reshape(nt, nx)
    sq = 1 / np.sqrt(w.ravel())
    if kind in ('equal', 'pairs'):
        # blocks that are orthonormal in the weighted product: repeated eigenvalues at every frequency
        q = np.linalg.qr(r.standard_normal((nx, nx)) + (1j * r.standard_normal((nx, nx)) if cplx else 0))[0]
        s = r.standard_normal(n)
        x = np.zeros((nt, nx), dtype=x.dtype)
        for b in range(nb):
            amp = 1. if kind == 'equal' else 1. + b // 2
            x[b * n:(b + 1) * n] = np.outer(s, amp * q[:, b % nx] * sq)
    elif kind == 'wave':
        t, p = np.arange(nt)[:, None], np.arange(nx)[None, :]
        x = np.cos(2 * np.pi * (p / nx - t / n)) * sq + (1j * np.sin(2 * np.pi * (2 * p / nx - 2 * t / n)) * sq if cplx else 0)
    elif kind == 'lowrank':
        x = x[:, :2] @ (r.standard_normal((2, nx)) + (1j * r.standard_normal((2, nx)) if cplx else 0)) if nx > 1 else x
    elif kind == 'missing':
        x[:n] = 0
        x[:, -1] = 0
    elif kind == 'zero':
        x = x * 0
    elif kind == 'constant':
        x = x * 0 + 3.7
    elif kind == 'tiny':
        x = x * 1e-9
    elif kind == 'huge':
        x = x * 1e9
    elif kind == 'weak':
        x = x * np.logspace(0, -4, nx)
    elif kind == 'steep':
        # the energy falls by many orders of magnitude with the frequency
        k = np.minimum(np.arange(n), n - np.arange(n))
        for b in range(nb):
            s = np.fft.fft(x[b * n:(b + 1) * n], axis=0) * 10. ** (-15 * k[:, None] / n)
            y = np.fft.ifft(s, axis=0) / ref.hamming(n)[:, None]
            x[b * n:(b + 1) * n] = y if cplx else y.real
    return x.reshape((nt,) + tuple(shape) + (nv,))


def gram(m, w):
    m = m.reshape(w.size, -1)
    return m.conj().T @ (w.reshape(-1, 1) * m)


def t_batch(ctx, si, kind, n, blocks=((2, 0), (5, 0), (4, 50), (3, 70))):
    rep = Rep()
    shape, nv = SHAPES[si]
    w = gen.weights(ctx.seed, shape, nv)
    with ctx.tmp() as d, quiet():
        for nb, ov in blocks:
            for cplx, full in ((False, False), (False, True), (True, False)):
                x = make(ctx.seed, kind, n, nb, shape, nv, w, cplx)
                for mean in ('zero', 'longtime', 'blockwise'):
                    for nm in (1, 2, 99) if n < 15 else (10, 99):
                        for dtype in ('double', 'single'):
                            if dtype == 'single' and (nm != 99 or kind in ('tiny', 'huge', 'weak')):
                                continue
                            eps = 1e-10 if dtype == 'double' else 1e-4
                            p = api.params(n_dft=n, dt=0.5, xdim=len(shape), nv=nv, savedir=d, overlap=ov, mean_type=mean,
                                           fullspectrum=full, n_modes_save=nm, dtype=dtype)
                            s = api.fit([x.astype(np.float32 if not cplx else np.complex64) if dtype == 'single' else x], p,
                                        gen.wdict(w))
                            rep.case('b%d/%s/%d/%d/%d/%d/%d/%s/%d/%s' % (si, kind, n, nb, ov, cplx, full, mean, nm, dtype), shape=shape,
                                     data=kind, n_dft=n, mean=mean)
                            at = 'shape %r, data %s, n_dft %d, %d blocks, overlap %d, complex %r, full %r, mean %s, n_modes %d, %s: ' % (
                                (shape, nv), kind, n, nb, ov, cplx, full, mean, nm, dtype)
                            if not batch(rep, at, s, x, w, n, ov, mean, full, eps, nm, dtype):
                                return rep
    return rep


def batch(rep, at, s, x, w, n, ov, mean, full, eps, nm, dtype):
    nt = len(x)
    e = np.array(s.eigs)
    if np.iscomplexobj(e) and np.abs(e.imag).max() > 0:
        rep.bad('real', at + 'complex eigenvalues')
        return False
    e = e.real
    Q, k, fr, real = ref.realizations(x.reshape(nt, -1), n, ov, mean, full, False, 0.5)
    nb = Q.shape[2]
    pw = np.sum(np.abs(Q) ** 2 * w.reshape(1, -1, 1), axis=(1, 2)) / nb
    if real and not full:
        pw = pw * np.where((k == 0) | (2 * k == n), 1, 2)
    raw = np.sum(np.abs(x) ** 2 * w[None]) / nt
    sc = max(pw.max(), raw * 1e-12, 1e-300)
    if not np.isfinite(e).all() or (e < 0).any() or e.shape != (len(k), nb):
        rep.bad('eigs', at + 'eigenvalues %r' % (e.tolist(),))
        return False
    if (np.diff(e, axis=1) > eps * sc).any():
        rep.bad('order', at + 'eigenvalues not in descending order: %r' % (e.tolist(),))
        return False
    if np.abs(e.sum(axis=1) - pw).max() > (eps if dtype == 'double' else 1e-3) * max(sc, raw * 1e-9):
        rep.bad('energy', at + 'sum of eigenvalues: ' + cmp.err(e.sum(axis=1), pw))
        return False
    good = 1e-10 if dtype == 'double' else 1e-3
    for f in range(len(k)):
        m = np.asarray(s.get_modes_at_freq(f))
        if m.shape != tuple(x.shape[1:]) + (min(nm, nb),):
            rep.bad('shape', at + 'modes of shape %r' % (m.shape,))
            return False
        if e[f, 0] <= (1e-3 * sc if dtype == 'single' else 1e-22 * max(sc, raw)) or e[f, 0] < raw * (1e-9 if dtype == 'single' else 1e-22):
            continue
        j = [i for i in range(m.shape[-1]) if e[f, i] > good * e[f, 0]]
        g = gram(m, w)[np.ix_(j, j)]
        tol = np.array([[1e-11 if dtype == 'double' else 3e-5] * len(j)] * len(j)) * 10 * e[f, 0] / np.minimum.outer(e[f, j], e[f, j])
        if not (np.abs(g - np.eye(len(j))) <= np.maximum(tol, 1e-9)).all():
            rep.bad('orthonormal', at + 'Gram matrix of the modes at frequency %d: %r' % (f, np.round(g, 6).tolist()))
            return False
        if dtype == 'double' and f % 2 and e[f, 0] > 1e-3 * sc and nm != 1 and e[f, j[-1]] > 1e-5 * e[f, 0]:
            for a in j[:3]:
                for b in j[:3]:
                    flag, val = api.spod_utils.check_orthogonality(s.savedir_sim, [a], [b], [f])
                    val = np.asarray(val).ravel()[0]
                    if not bool(flag) or abs(val - (a == b)) > 1e-6:
                        rep.bad('check', at + 'check_orthogonality of modes %d, %d at frequency %d: %r, %r' % (a, b, f, flag, val))
                        return False
    return True


def answers(comm, d, a, b, f):
    flag, val = api.spod_utils.check_orthogonality(d, [a], [b], [f], comm=comm)
    return bool(flag), complex(np.asarray(val).ravel()[0])


def t_answer(ctx, si, n):
    '''stored modes with a prescribed weighted product.'''
    rep = Rep()
    shape, nv = SHAPES[si]
    w = gen.weights(ctx.seed, shape, nv)
    x = gen.field(ctx.seed, 12, shape, nv)
    r = gen.rng('c13a', ctx.seed, si)
    with ctx.tmp() as d, quiet():
        s = api.fit([x], api.params(n_dft=4, dt=0.5, xdim=len(shape), nv=nv, savedir=d), gen.wdict(w))
        for f in (0, 1):
            file = os.path.join(s.savedir_sim, 'modes', 'freq_idx_%08d.npy' % f)
            m = np.load(file)
            u = r.standard_normal((2,) + m.shape[:-1]) + 1j * r.standard_normal((2,) + m.shape[:-1])
            u[0] /= np.sqrt(np.sum(w * np.abs(u[0]) ** 2))
            u[1] -= u[0] * np.sum(w * u[0].conj() * u[1])
            for z in OVERLAPS:
                # <m0, m1> = z and <m2, m2> = |z|
                m[..., 0], m[..., 1], m[..., 2] = u[0], z * u[0] + u[1], np.sqrt(abs(z)) * u[0]
                np.save(file, m)
                for a, b, v in ((0, 1, z), (1, 0, np.conj(z)), (2, 2, abs(z))):
                    rep.case('answer/%d/%d/%d/%d/%d/%r' % (si, n, f, a, b, z), shape=shape, overlap=str(v), ranks=n)
                    rep.states += 1
                    want = abs(v - (a == b)) < 2e-6
                    if n:
                        q = spmd.launch(n, answers, (s.savedir_sim, a, b, f), root=d)
                        got = q.values if q.ok() else [q.describe()]
                    else:
                        got = [answers(None, s.savedir_sim, a, b, f)]
                    for g in got:
                        if isinstance(g, str) or g[0] != want or abs(g[1] - v) > 1e-12:
                            rep.bad('answer', 'shape %r, %d ranks, modes %d and %d with the weighted product %r: answer %r' % (
                                (shape, nv), n, a, b, v, g))
                            return rep
    return rep


def t_stream(ctx, si, kind, n):
    rep = Rep()
    shape, nv = SHAPES[si]
    w = gen.weights(ctx.seed, shape, nv)
    with ctx.tmp() as d, quiet():
        for nb, ov in ((2, 0), (4, 50)):
            for cplx, full in ((False, False), (False, True), (True, False)):
                x = make(ctx.seed, kind, n, nb, shape, nv, w, cplx)
                for nm in (1, 2, 3):
                    p = api.params(n_dft=n, dt=0.5, xdim=len(shape), nv=nv, savedir=d, overlap=ov, fullspectrum=full, n_modes_save=nm)
                    s = api.fit([x], p, gen.wdict(w), api.Streaming)
                    e = np.array(s.eigs)
                    rep.case('s%d/%s/%d/%d/%d/%d/%d/%d' % (si, kind, n, nb, ov, cplx, full, nm), shape=shape, data=kind, n_dft=n)
                    at = 'streaming, shape %r, data %s, n_dft %d, %d blocks, overlap %d, complex %r, full %r, n_modes %d: ' % (
                        (shape, nv), kind, n, nb, ov, cplx, full, nm)
                    if not np.isfinite(e).all() or np.abs(e.imag).max() > 0 or (e.real < 0).any():
                        rep.bad('eigs', at + 'singular values %r' % (e.tolist(),))
                        return rep
                    e = e.real
                    if (np.diff(e, axis=1) > 1e-10 * max(e.max(), 1e-300)).any():
                        rep.bad('order', at + 'singular values not in descending order: %r' % (e.tolist(),))
                        return rep
                    for f in range(len(e)):
                        if e[f, 0] <= 1e-6 * e.max():
                            continue
                        j = [i for i in range(e.shape[1]) if e[f, i] > 1e-6 * e[f, 0]]
                        g = gram(np.asarray(s.get_modes_at_freq(f)), w)[np.ix_(j, j)]
                        if np.abs(g - np.eye(len(j))).max() > 1e-8:
                            rep.bad('orthonormal', at + 'Gram matrix of the modes at frequency %d: %r' % (f, np.round(g, 6).tolist()))
                            return rep
    return rep
