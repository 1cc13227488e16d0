'''C21: the streaming SPOD follows its recursion over the snapshots in order.'''
import itertools
import numpy as np

from mc import api, cmp, gen, ref
from mc.core import Rep, quiet

PROP = 'C21'
LEVEL = 'model_checking'
RULE = ('every block length x overlap x series length x rank limit x data kind x spectrum: singular values and well separated '
        'modes against the recursion evaluated with dense matrices; weak structures beside a strong one; every shape, variables, weights; every split of the series '
        'into up to three pieces; impulses at every time step and point; constant data; orthonormality')
SHAPES = [((4,), 1), ((2, 3), 2), ((1,), 1), ((2, 1, 2), 1), ((2,), 3)]
KINDS = [('real', False), ('real', True), ('complex', False)]


def plan(tier, seed):
    ns = range(4, 9) if tier == 'quick' else range(4, 15)
    items = [('t_grid', [n, k, full]) for n in ns for k, full in KINDS]
    items += [('t_shapes', [s, k, full]) for s in range(len(SHAPES)) for k, full in KINDS]
    items += [('t_splits', [n]) for n in (4, 5, 6)] + [('t_const', [n]) for n in (4, 5, 7)]
    items += [('t_impulse', [n, k]) for n in (4, 5) for k in sorted({0, 1, n // 2, n - 1})]
    items += [('t_weak', [n, k, full]) for n in ns for k, full in KINDS]
    items += [('t_scale', [n, k, full]) for n in (4, 5, 8) for k, full in KINDS]
    items += [('t_long', [n, k, full]) for n in (16, 25, 64) for k, full in KINDS]
    return items


def pct(n, k):
    return 0 if k == 0 else (k - 0.5) * 100 / n


def blocks(nt, n, dn):
    """(start, end) of the blocks in the order in which they are completed: the sums of ceil(n/dn) blocks advance in
    parallel; the one completed is restarted dn behind the last of them."""
    par = -(-n // dn)
    pos = [-j * dn for j in range(par)]
    out = []
    for t in range(nt):
        done = None
        for j in range(par):
            if pos[j] == n - 1:
                done = t
                pos[j] = min(pos) - dn
            else:
                pos[j] += 1
        if done is not None:
            out.append((done - n + 1, done))
    return out


def recursion(x, w, n, k, rank, full):
    """x (nt, points): singular values (frequencies, rank) and modes (frequencies, points, rank)."""
    nt, nx = x.shape
    real = np.isreal(x).all()
    bl = blocks(nt, n, n - k)
    fs = list(range(n // 2 + 1)) if real and not full else list(range(n))
    h = ref.hamming(n)
    sw = np.sqrt(w.ravel())
    lam, phi = np.zeros((len(fs), rank)), np.zeros((len(fs), nx, rank), dtype=complex)
    t = np.arange(n)
    for i, f in enumerate(fs):
        e = h * np.exp(-2j * np.pi * f * t / n) / (n * h.mean())
        if real and not full and f != 0 and 2 * f != n:
            e = 2 * e
        A = np.zeros((nx, 0), dtype=complex)
        for b, (s, end) in enumerate(bl, 1):
            mu = x[:end + 1].mean(axis=0)
            q = sw * (e @ (x[s:end + 1] - mu))
            A = np.sqrt(b + 1) / (b + 2) * np.concatenate([np.sqrt(b + 2) * A, q[:, None]], axis=1)
            u, s_, _ = np.linalg.svd(A, full_matrices=False)
            A = (u * s_)[:, :rank]
        u, s_, _ = np.linalg.svd(A, full_matrices=False)
        m = min(rank, len(s_))
        lam[i, :m] = s_[:m]
        phi[i, :, :m] = u[:, :m] / sw[:, None]
    return lam, phi, len(bl)


def compare(rep, at, data, x, w, shape, nv, n, k, rank, full, d, tol=1e-9):
    p = api.params(n_dft=n, dt=0.5, xdim=len(shape), nv=nv, savedir=d, overlap=pct(n, k), fullspectrum=full, n_modes_save=rank)
    a, _ = api.serial(data, p, gen.wdict(w) if w is not None else None, api.Streaming)
    nm = a['n_modes_save']
    lam, phi, nb = recursion(x.reshape(len(x), -1), np.ones(x[0].size) if w is None else w, n, k, nm, full)
    e = np.asarray(a['eigs'])
    if e.shape != lam.shape:
        rep.bad('shape', at + 'singular values of shape %r instead of %r' % (e.shape, lam.shape))
        return False
    sc = max(lam.max(), 1e-12 * np.abs(x).max(), 1e-300)
    if not cmp.close(e, lam, tol, sc):
        rep.bad('eigs', at + 'singular values: ' + cmp.err(e, lam))
        return False
    for f in range(len(lam)):
        m = a['stored']['modes'][f].reshape(x[0].size, -1)
        if lam[f][0] < 1e-6 * sc:
            continue
        good = [j for j in range(nm) if lam[f][j] > 1e-7 * lam[f][0]]
        ww = np.ones(x[0].size) if w is None else w.ravel()
        g = (m.conj().T @ (ww[:, None] * m))[np.ix_(good, good)]
        if np.abs(g - np.eye(len(good))).max() > 1e-8:
            rep.bad('orthonormal', at + 'modes at frequency %d are not orthonormal: %r' % (f, np.round(g, 6).tolist()))
            return False
        for j in good:
            if ref.separated(lam[f], j, 1e-4):
                q = ref.mode_distance(phi[f][:, j], m[:, j])
                if not q < 1e-6 * lam[f][0] / lam[f][j]:
                    rep.bad('modes', at + 'mode %d at frequency %d differs by %.3g' % (j, f, q))
                    return False
    return True


def t_grid(ctx, n, kind, full):
    rep = Rep()
    with ctx.tmp() as d, quiet():
        for k in range(n):
            dn = n - k
            for nt in sorted({n + j * dn + e for j in (1, 2, 3) for e in {0, 1, dn - 1}} | {4 * n + 3}):
                x = gen.field(ctx.seed, nt, (3,), 1, kind)
                w = gen.weights(ctx.seed, (3,), 1)
                for rank in (1, 2, 5):
                    at = 'n_dft %d, overlap %d, nt %d, rank %d, %s, full %r: ' % (n, k, nt, rank, kind, full)
                    rep.case('g%d/%d/%d/%d/%s/%d' % (n, k, nt, rank, kind, full), n_dft=n, overlap=k, nt=nt, rank=rank)
                    if not compare(rep, at, [x], x, w, (3,), 1, n, k, rank, full, d):
                        return rep
    return rep


def t_weak(ctx, n, kind, full):
    '''a strong structure with weak ones beside it'''
    rep = Rep()
    with ctx.tmp() as d, quiet():
        for k in (0, n // 2, n - 1):
            nt = n + 4 * (n - k) + 1
            for weak in (1e-3, 1e-6, 1e-8, 1e-9):
                r = gen.rng('c21w', ctx.seed, n, k, kind)
                x = gen.field(ctx.seed, nt, (4,), 1, kind)
                y = r.standard_normal((nt, 1, 1)) * r.standard_normal((1, 4, 1)) + weak * (x - x.mean(axis=0))
                w = gen.weights(ctx.seed, (4,), 1)
                for rank in (2, 3):
                    at = 'n_dft %d, overlap %d, weak part %g, rank %d, %s, full %r: ' % (n, k, weak, rank, kind, full)
                    rep.case('w%d/%d/%g/%d/%s/%d' % (n, k, weak, rank, kind, full), n_dft=n, overlap=k, weak=weak)
                    if not compare(rep, at, [y], y, w, (4,), 1, n, k, rank, full, d, 1e-12):
                        return rep
    return rep


def t_scale(ctx, n, kind, full):
    '''data of every magnitude, also different by variable'''
    rep = Rep()
    with ctx.tmp() as d, quiet():
        for k in (0, n // 2):
            nt = n + 4 * (n - k) + 1
            for s in ((1e-12,) * 2, (1e-7,) * 2, (1e6,) * 2, (1e10,) * 2, (1e-5, 1.), (1e4, 1e-1)):
                x = gen.field(ctx.seed, nt, (3,), 2, kind) * np.array(s)
                w = gen.weights(ctx.seed, (3,), 2)
                for rank in (1, 3):
                    at = 'n_dft %d, overlap %d, rank %d, %s data of magnitude %r, full %r: ' % (n, k, rank, kind, s, full)
                    rep.case('m%d/%d/%r/%d/%s/%d' % (n, k, s, rank, kind, full), n_dft=n, overlap=k, magnitude=s)
                    if not compare(rep, at, [x], x, w, (3,), 2, n, k, rank, full, d):
                        return rep
    return rep


def t_long(ctx, n, kind, full):
    '''long blocks and long streams'''
    rep = Rep()
    with ctx.tmp() as d, quiet():
        for k in (0, n // 2, n - 1):
            nt = n + 12 * (n - k) + 1
            for shape, nv, rank in (((3,), 1, 2), ((5, 4), 2, 7)):
                x = gen.field(ctx.seed, nt, shape, nv, kind)
                w = gen.weights(ctx.seed, shape, nv)
                at = 'n_dft %d, overlap %d, nt %d, shape %r, rank %d, %s, full %r: ' % (n, k, nt, shape, rank, kind, full)
                rep.case('l%d/%d/%d/%d/%s/%d' % (n, k, nt, rank, kind, full), n_dft=n, overlap=k, nt=nt, rank=rank)
                if not compare(rep, at, [x[:n + 3], x[n + 3:]], x, w, shape, nv, n, k, rank, full, d):
                    return rep
    return rep


def t_shapes(ctx, si, kind, full):
    rep = Rep()
    shape, nv = SHAPES[si]
    with ctx.tmp() as d, quiet():
        for n, k in ((4, 0), (5, 2), (6, 3)):
            for weighted in (True, False):
                for rank in (1, 2, 3, 8):
                    x = gen.field(ctx.seed, 3 * n + 2, shape, nv, kind)
                    w = gen.weights(ctx.seed, shape, nv) if weighted else None
                    at = 'shape %r, weights %r, n_dft %d, overlap %d, rank %d, %s, full %r: ' % (SHAPES[si], weighted, n, k, rank, kind, full)
                    rep.case('s%d/%s/%d/%d/%d/%d' % (si, kind, full, n, weighted, rank), shape=shape, rank=rank)
                    if not compare(rep, at, [x], x, w, shape, nv, n, k, rank, full, d):
                        return rep
    return rep


def t_splits(ctx, n):
    rep = Rep()
    nt = 2 * n + 3
    with ctx.tmp() as d, quiet():
        for kind, full in KINDS:
            x = gen.field(ctx.seed, nt, (2,), 2, kind)
            w = gen.weights(ctx.seed, (2,), 2)
            cuts = [(i,) for i in range(1, nt)] + list(itertools.combinations(range(1, nt), 2)) + [tuple(range(1, nt))]
            for c in cuts:
                b = [0] + list(c) + [nt]
                at = 'n_dft %d, %s, full %r, pieces cut at %r: ' % (n, kind, full, c)
                rep.case('c%d/%s/%d/%r' % (n, kind, full, c), n_dft=n, cuts=c)
                if not compare(rep, at, [x[b[i]:b[i + 1]] for i in range(len(b) - 1)], x, w, (2,), 2, n, n // 2, 2, full, d):
                    return rep
    return rep


def t_impulse(ctx, n, k):
    """a unit impulse at each time step and point enters exactly the blocks that contain it."""
    rep = Rep()
    nt = n + 3 * (n - k) + 1
    with ctx.tmp() as d, quiet():
        for t in range(nt):
            for pt in range(4):
                x = np.zeros((nt, 2, 2))
                x[t].flat[pt] = 1
                at = 'n_dft %d, overlap %d, impulse at time %d and point %d: ' % (n, k, t, pt)
                rep.case('i%d/%d/%d/%d' % (n, k, t, pt), n_dft=n, overlap=k, time=t, point=pt)
                if not compare(rep, at, [x], x, None, (2,), 2, n, k, 2, False, d):
                    return rep
    return rep


def t_const(ctx, n):
    rep = Rep()
    with ctx.tmp() as d, quiet():
        for k in (0, n // 2, n - 1):
            for c in (1.0, -1234.5, 3 - 4j, 0.0):
                for full in (False, True):
                    for shape, nv in SHAPES[:2]:
                        x = np.full((3 * n,) + shape + (nv,), c)
                        p = api.params(n_dft=n, dt=0.5, xdim=len(shape), nv=nv, savedir=d, overlap=pct(n, k), fullspectrum=full, n_modes_save=2)
                        a, _ = api.serial([x], p, gen.wdict(gen.weights(ctx.seed, shape, nv)), api.Streaming)
                        rep.case('k%d/%d/%s/%d/%r' % (n, k, c, full, shape), n_dft=n, constant=str(c))
                        if not (np.abs(a['eigs']) <= 1e-11 * max(abs(c), 1e-3)).all():
                            rep.bad('constant', 'n_dft %d, overlap %d, constant %r, full %r: singular values up to %.3g' % (
                                n, k, c, full, np.nanmax(np.abs(a['eigs']))))
                            return rep
    return rep
