'''Reference models, written from the definitions (Welch's method; Towne, Schmidt
and Colonius 2018) and not from the code under test.'''
import numpy as np


def n_overlap(n_dft, pct):
    return int(np.ceil(n_dft * pct / 100))


def block_starts(nt, n_dft, novlp):
    nb = (nt - novlp) // (n_dft - novlp)
    return [i * (n_dft - novlp) for i in range(nb)]


def hamming(n):
    k = np.arange(n)
    return 0.54 - 0.46 * np.cos(2 * np.pi * k / (n - 1))


def freq_axis(n_dft, dt, real, full):
    '''list of (bin index k, frequency).'''
    if full:
        return [(k, k / (n_dft * dt)) for k in range(n_dft)]
    if real:
        return [(k, k / (n_dft * dt)) for k in range(n_dft // 2 + 1)]
    out = []
    for k in range(n_dft):
        f = k if 2 * k <= n_dft else k - n_dft
        out.append((k, f / (n_dft * dt)))
    return out


def realizations(data, n_dft, pct, mean_type='longtime', full=False, normalize_data=False, dt=1.0):
    '''data (nt, points): Fourier realisations Q[f] (points, blocks), bins, freqs.'''
    data = np.asarray(data)
    real = np.isreal(data).all()
    cd = np.complex128
    nt = data.shape[0]
    novlp = n_overlap(n_dft, pct)
    starts = block_starts(nt, n_dft, novlp)
    w = hamming(n_dft)
    x = data.astype(np.complex128) if np.iscomplexobj(data) else data.astype(np.float64)
    if mean_type == 'longtime':
        x = x - x.mean(axis=0)
    fa = freq_axis(n_dft, dt, real, full)
    k = np.array([b for b, _ in fa])
    t = np.arange(n_dft)
    F = np.exp(-2j * np.pi * np.outer(k, t) / n_dft)
    Q = np.zeros((len(k), x.shape[1], len(starts)), dtype=cd)
    for j, s in enumerate(starts):
        b = x[s:s + n_dft].copy()
        if mean_type == 'blockwise':
            b = b - b.mean(axis=0)
        if normalize_data:
            d = b - b.mean(axis=0)
            var = np.sum(np.abs(d) ** 2, axis=0) / (n_dft - 1)
            var = np.where(var < 4 * np.finfo(float).eps, 1, var)
            b = b / var
        b = b * w[:, None]
        Q[:, :, j] = F @ b / (n_dft * w.mean())
    return Q, k, np.array([f for _, f in fa]), real


def spod(data, weights, n_dft, pct, mean_type='longtime', full=False, normalize_data=False, dt=1.0):
    '''data (nt, points), weights (points,).  Returns dict with freq, eigs (n_freq, blocks,
    one-sided power doubled), raw eigenvalues, modes (n_freq, points, blocks).'''
    Q, k, freq, real = realizations(data, n_dft, pct, mean_type, full, normalize_data, dt)
    nf, nx, nb = Q.shape
    lam = np.zeros((nf, nb))
    phi = np.zeros((nf, nx, nb), dtype=complex)
    w = np.asarray(weights, dtype=float).ravel()
    for f in range(nf):
        X = Q[f] * np.sqrt(w)[:, None] / np.sqrt(nb)
        _, s, vh = np.linalg.svd(X, full_matrices=True)
        s = np.concatenate([s, np.zeros(nb - len(s))])[:nb]
        lam[f] = s ** 2
        with np.errstate(all='ignore'):
            phi[f] = Q[f] @ vh.conj().T / (np.sqrt(nb) * s)
    out = lam.copy()
    if real and not full:
        for i, b in enumerate(k):
            if b != 0 and 2 * b != n_dft:
                out[i] *= 2
    return {'freq': freq, 'eigs': out, 'lam': lam, 'modes': phi, 'Q': Q, 'n_blocks': nb, 'real': real}


def separated(lam, m, rel=1e-6):
    '''is eigenvalue m of the descending list well separated from its neighbours and from 0?'''
    top = lam[0]
    if top <= 0 or lam[m] < 1e-9 * top:
        return False
    for j in (m - 1, m + 1):
        if 0 <= j < len(lam) and abs(lam[j] - lam[m]) < rel * top:
            return False
    return True


def mode_distance(a, b, w=None):
    '''distance of two modes up to a unit complex factor, relative to |a|.'''
    a = np.asarray(a).ravel()
    b = np.asarray(b).ravel()
    na = np.linalg.norm(a)
    c = np.vdot(b, a)
    ph = c / abs(c) if abs(c) > 0 else 1.0
    return np.linalg.norm(a - ph * b) / na if na > 0 else np.linalg.norm(b)
