'''C18: convolution coefficients follow their definition.'''
import os
import math
import numpy as np
import yaml

from mc import api, cmp, gen, ref
from mc.core import Rep, quiet

PROP = 'C18'
LEVEL = 'model_checking'
RULE = ('every shape x data kind x spectrum x block length x series length x frequency selection x mode selection: '
        'coefficients against the definition evaluated at every time, frequency and mode, stored modes and mean, linearity '
        'in the data, reconstruction as the sum of modes times coefficients')
SHAPES = [((4,), 1, True), ((4,), 1, False), ((2, 3), 2, True), ((1,), 1, True), ((2, 1, 2), 1, True), ((2,), 3, True), ((30,), 1, True), ((4, 5), 2, True)]
DT = 0.25


def plan(tier, seed):
    return [('t_conv', [s, kind, full, n]) for s in range(6)
            for kind, full in (('real', False), ('real', True), ('complex', False), ('complex', True))
            for n in ((4, 5, 6, 7, 8, 9) if tier == 'quick' else range(4, 17))] + [('t_conv', [s, k, f, 24]) for s, k, f in ((0, 'real', False), (0, 'complex', True))] + [
                ('t_conv', [6, 'real', False, 10, [6, 3]]), ('t_conv', [7, 'complex', True, 7, [5]])]


def definition(x, phi, w, n, fi):
    '''x (nt, points) with its mean; phi[f] (points, modes): coefficients (frequency, time, mode).'''
    nt = len(x)
    x = x - x.mean(axis=0)
    h = int(math.ceil(n / 2))
    win = ref.hamming(n)
    energy = n * win.mean()              # n / (1 / mean(window))
    out = np.zeros((len(fi), nt, phi[0].shape[1]), dtype=complex)
    for i in range(nt):
        if i < h - 2:
            corr = math.sqrt(energy / win[h - i - 1:].sum())
        elif i >= nt - h:
            corr = math.sqrt(energy / win[:nt + h - i - 1].sum())
        else:
            corr = 1.0
        for j, f in enumerate(fi):
            q = np.zeros(x.shape[1], dtype=complex)
            for k in range(n):
                t = i - h + k
                if 0 <= t < nt:
                    q += win[k] * x[t] * np.exp(-2j * np.pi * f * k / n)
            out[j, i] = corr * (phi[j].conj().T @ (w.ravel() * q))
    return out


def t_conv(ctx, si, kind, full, n, modes_saved=(1, 2)):
    rep = Rep()
    shape, nv, axis = SHAPES[si]
    w = gen.weights(ctx.seed, shape, nv)
    with ctx.tmp() as d, quiet():
        nt0 = 2 * n + 3 if modes_saved[0] == 1 else 5 * n + 3
        x = gen.field(ctx.seed, nt0, shape, nv, kind)
        conv, rec = api.spod_utils.compute_coeffs_conv, api.spod_utils.compute_reconstruction
        for nm in modes_saved:
            s = api.fit([x if axis else x[..., 0]], api.params(n_dft=n, dt=DT, xdim=len(shape), nv=nv, savedir='%s/m%d' % (d, nm),
                        overlap=50, fullspectrum=full, n_modes_save=nm), gen.wdict(w))
            res = s.savedir_sim
            modes = [np.array(m).reshape(x[0].size, -1) for m in api.stored(res)['modes']]
            freq = np.array(s.freq)
            nf = len(freq)
            f1, f2 = freq[1], freq[2 if n > 4 else 2]
            sels = [({}, list(range(nf))), ({'freq_idx': [1]}, [1]), ({'freq_idx': [0, nf - 1]}, [0, nf - 1]),
                    ({'freq_idx': np.arange(1, nf)}, list(range(1, nf))), ({'T_lb': 1 / f2, 'T_ub': 1 / f1}, [1, 2]),
                    ({'T_lb': 1 / (f1 * 1.1), 'T_ub': np.inf}, [0, 1]), ({'freq_idx': [2, 1]}, [2, 1])]
            for k, (kw, fi) in enumerate(sels):
                for nt in (nt0, n, n // 2 + 1, 3 * n) if k == 0 or ctx.tier != 'quick' else (nt0,):
                    y = gen.field(ctx.seed + 1, nt, shape, nv, kind)
                    mi = [None, [nm - 1], [1, 0][:nm] if nm > 1 else [0]][(k + nt) % 3]
                    ids = list(range(modes[0].shape[1])) if mi is None else mi
                    phi = [modes[f][:, ids] for f in fi]
                    fc, cd = conv(data=y if axis else y[..., 0], results_dir=res, modes_idx=mi, **kw)
                    a = np.load(fc)
                    at = 'shape %r, %s, full %r, n_dft %d, nt %d, selection %r, modes %r: ' % (SHAPES[si], kind, full, n, nt, kw, mi)
                    rep.case('%d/%s/%d/%d/%d/%d/%d' % (si, kind, full, n, nm, k, nt), shape=shape, n_dft=n, nt=nt, selection=str(kw))
                    e = definition(y.reshape(nt, -1), phi, w, n, fi)
                    if not cmp.close(a, e, 1e-9):
                        rep.bad('coeffs', at + 'coefficients: ' + cmp.err(a, e))
                        return rep
                    g = np.load(os.path.join(cd, 'modes_r.npy'))
                    m = np.stack(phi, axis=1)
                    if g.shape != x.shape[1:] + m.shape[1:] or not np.array_equal(g.reshape(m.shape), m):
                        rep.bad('modes', at + 'stored modes are not those of the selection (shape %r)' % (g.shape,))
                        return rep
                    mean = y.mean(axis=0)
                    g = np.load(os.path.join(cd, 'ltm.npy'))
                    if g.shape != mean.shape or not cmp.close(g, mean, 1e-12, np.abs(y).max()):
                        rep.bad('mean', at + 'stored mean: ' + cmp.err(g, mean))
                        return rep
                    with open(os.path.join(cd, 'params_coeffs.yaml')) as f:
                        p = yaml.load(f, Loader=yaml.FullLoader)
                    exp = {'n_freq_r': len(fi), 'freq_idx_lb': min(fi), 'freq_idx_ub': max(fi), 'freq_lb': float(freq[min(fi)]),
                           'freq_ub': float(freq[max(fi)])}
                    for q, v in exp.items():
                        if p.get(q) != v:
                            rep.bad('band', at + 'stored %s is %r instead of %r' % (q, p.get(q), v))
                            return rep
                    for times, ti in (('all', range(nt)), ('half', range(0, nt, 2)), ([nt - 1, 0], [nt - 1, 0])):
                        fr, _ = rec(coeffs_dir=cd, time_idx=times)
                        R = np.load(fr)
                        E = (np.einsum('xfm,ftm->tx', m, a) + mean.ravel()).reshape(y.shape)[list(ti)]
                        if not cmp.close(R, E, 1e-9):
                            rep.bad('reconstruction', at + 'reconstruction at %r: %s' % (times, cmp.err(R, E)))
                            return rep
                    # linearity, and no effect of the mean
                    if k in (0, 4):
                        z = gen.field(ctx.seed + 2, nt, shape, nv, kind)
                        c = 2.5 if kind == 'real' else 2.5 - 1j
                        fl, _ = conv(data=(y + c * z + 7) if axis else (y + c * z + 7)[..., 0], results_dir=res, modes_idx=mi, savedir='lin', **kw)
                        fz, _ = conv(data=z if axis else z[..., 0], results_dir=res, modes_idx=mi, savedir='linz', **kw)
                        if not cmp.close(np.load(fl), a + c * np.load(fz), 1e-9):
                            rep.bad('linear', at + 'not linear in the data: ' + cmp.err(np.load(fl), a + c * np.load(fz)))
                            return rep
                        for sc in (1e-12, 1e9):
                            fl, _ = conv(data=y * sc if axis else y[..., 0] * sc, results_dir=res, modes_idx=mi, savedir='scaled', **kw)
                            if not cmp.close(np.load(fl), a * sc, 1e-9, np.abs(a).max() * sc):
                                rep.bad('linear', at + 'data times %g: ' % sc + cmp.err(np.load(fl), a * sc))
                                return rep
    return rep
