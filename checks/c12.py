'''C12: the frequency axis is right and one- and two-sided spectra agree.'''
import numpy as np

from mc import api, cmp, gen, ref
from mc.core import Rep, quiet

PROP = 'C12'
LEVEL = 'model_checking'
RULE = ('every block length x time step x real/complex data x spectrum option x batch/streaming: the reported axis is '
        'compared with the one in use (found with a pure complex or real tone at every bin, whose energy must appear at its '
        'own frequency only), and for real data the one-sided eigenvalues with the sum over the matching pair of the '
        'two-sided ones, conjugate modes at opposite frequencies')
DTS = [1.0, 0.01, 0.3, 2.5]


def plan(tier, seed):
    nd = range(4, 14) if tier == 'quick' else range(4, 40)
    return ([('t_axis', [n]) for n in list(nd) + [64, 101, 208, 257]] + [('t_sides', [n, 'Standard']) for n in (30, 31)] + [('t_tone', [n, c]) for n in nd for c in ('Standard', 'Streaming')] +
            [('t_sides', [n, c]) for n in nd for c in ('Standard', 'Streaming')])


def axis(n, dt, real, full):
    '''the documented axis, written independently: signed bins are those of numpy fftfreq up to the sign at n/2.'''
    return [f for _, f in ref.freq_axis(n, dt, real, full)]


def t_axis(ctx, n):
    rep = Rep()
    with ctx.tmp() as d, quiet():
        for cls in (api.Standard, api.Streaming):
            for dt in DTS + [np.float64(0.125), np.float32(0.1), np.int64(3), 2, 1 / 3, 7e-9, 12345.678]:
                for kind, full in (('real', False), ('real', True), ('complex', False), ('complex', True)):
                    for ov in (0, 50):
                        x = gen.field(ctx.seed, 2 * n + 3, (2,), 1, kind)
                        s = api.fit([x], api.params(n_dft=n, dt=dt, savedir=d, overlap=ov, fullspectrum=full), None, cls)
                        rep.case('a%d/%s/%s/%s/%d/%d' % (n, cls.__name__, dt, kind, full, ov), n_dft=n, dt=float(dt), kind=kind, full=full)
                        e = np.array(axis(n, float(dt), kind == 'real', full))
                        st = api.stored(s.savedir_sim, modes=False)
                        for name, g in (('freq', np.array(s.freq)), ('stored freq', st['freq'])):
                            if not cmp.close(g, e, 1e-12):
                                rep.bad('axis', '%s, n_dft %d, dt %r, %s data, full %r: %s is %r instead of %r' % (
                                    cls.__name__, n, dt, kind, full, name, g.tolist(), e.tolist()))
                                return rep
                        if s.n_freq != len(e) or len(s.eigs) != len(e) or st['params']['n_freq'] != len(e):
                            rep.bad('axis', '%s, n_dft %d, %s data, full %r: n_freq %r, eigs %r for %d frequencies' % (
                                cls.__name__, n, kind, full, s.n_freq, np.shape(s.eigs), len(e)))
                            return rep
    return rep


def t_tone(ctx, n, cname):
    '''energy of a tone with frequency f appears at the entry of the axis nearest to f (mod the sampling rate).'''
    rep = Rep()
    cls = getattr(api, cname)
    dt = 0.25
    nt = 4 * n
    t = np.arange(nt)
    amp = np.array([1., 2., -1.5])
    with ctx.tmp() as d, quiet():
        for k in range(n):
            for kind, full in (('real', False), ('real', True), ('complex', False), ('complex', True)):
                z = np.exp(2j * np.pi * k * t / n + 0.4j)
                x = (z.real if kind == 'real' else z)[:, None] * amp
                p = api.params(n_dft=n, dt=dt, savedir=d, overlap=0, fullspectrum=full, mean_type='zero')
                s = api.fit([x], p, None, cls)
                e = np.abs(np.asarray(s.eigs)[:, 0])
                f = np.asarray(s.freq)
                target = [k / (n * dt)] + ([-k / (n * dt)] if kind == 'real' else [])
                rate = 1 / dt
                hit = [i for i in range(len(f)) if any(abs((f[i] - g + rate / 2) % rate - rate / 2) < 1e-9 for g in target)]
                rep.case('t%d/%s/%d/%s/%d' % (n, cname, k, kind, full), n_dft=n, bin=k, kind=kind, full=full)
                # the Hamming window leaks into the neighbouring bins, with less energy than the tone's own bin;
                # bin 0 loses its energy to the mean the streaming algorithm subtracts
                if k == 0 and cname == 'Streaming':
                    continue
                want = {'real': 1 if not full or k in (0, n / 2) else 2, 'complex': 1}[kind]
                if len(hit) != want:
                    rep.bad('tone', '%s, n_dft %d, bin %d, %s, full %r: no unique axis entry for this tone: %r' % (
                        cname, n, k, kind, full, f.tolist()))
                    return rep
                top = int(np.argmax(e))
                m = min(k, n - k)
                clear = kind == 'complex' or (m >= 2 and n - 2 * m >= 4)    # own bin clear of the mirror image
                if clear and (top not in hit or max([e[i] for i in range(len(e)) if i not in hit]) > 0.9 * e[hit].min()):
                    rep.bad('tone', '%s, n_dft %d, %s tone at %.4f, full %r: energy is found at %.4f (%r)' % (
                        cname, n, kind, target[0], full, f[top], e.tolist()))
                    return rep
    return rep


def t_sides(ctx, n, cname):
    rep = Rep()
    cls = getattr(api, cname)
    with ctx.tmp() as d, quiet():
        for shape, nv in (((4,), 1), ((2, 3), 2)):
            for k in (0, n // 2, n - 1):
                for nm in (2, 99):
                    step = n - k
                    nt = n + 3 * step + 1
                    x = gen.field(ctx.seed, nt, shape, nv)
                    w = gen.wdict(gen.weights(ctx.seed, shape, nv))
                    p = api.params(n_dft=n, dt=0.5, xdim=len(shape), nv=nv, savedir=d, overlap=0 if k == 0 else (k - 0.5) * 100 / n,
                                   n_modes_save=nm)
                    a, _ = api.serial([x], dict(p, fullspectrum=False), w, cls)
                    b, _ = api.serial([x], dict(p, fullspectrum=True), w, cls)
                    rep.case('s%d/%s/%r/%d/%d' % (n, cname, shape, k, nm), n_dft=n, shape=shape, overlap=k, cls=cname)
                    at = '%s, n_dft %d, shape %r, overlap %d: ' % (cname, n, shape, k)
                    pw = 2 if cname == 'Streaming' else 1       # streaming returns singular values
                    ea, eb = np.abs(a['eigs']) ** pw, np.abs(b['eigs']) ** pw
                    sc = max(eb.max(), 1e-30)
                    if len(ea) != n // 2 + 1 or len(eb) != n:
                        rep.bad('count', at + '%d one-sided and %d two-sided frequencies' % (len(ea), len(eb)))
                        return rep
                    for f in range(n // 2 + 1):
                        g = (n - f) % n
                        if not cmp.close(eb[f], eb[g], 1e-9, sc):
                            rep.bad('pair', at + 'two-sided eigenvalues at bins %d and %d differ: %s' % (f, g, cmp.err(eb[f], eb[g])))
                            return rep
                        s = eb[f] + eb[g] if g != f else eb[f]
                        if cname == 'Streaming' and g != f:
                            s = 4 * eb[f]       # the streaming transform doubles the amplitude
                        if not cmp.close(ea[f], s, 1e-9, sc * 4):
                            rep.bad('sum', at + 'one-sided eigenvalues at bin %d are not those of the pair: %s' % (f, cmp.err(ea[f], s)))
                            return rep
                        if abs(a['freq'][f] - b['freq'][f]) > 1e-12:
                            rep.bad('freq', at + 'frequencies %r and %r of bin %d' % (a['freq'][f], b['freq'][f], f))
                            return rep
                        ma, mb, mc = a['stored']['modes'][f], b['stored']['modes'][f], b['stored']['modes'][g]
                        lam = eb[f]
                        for m in range(ma.shape[-1]):
                            if not ref.separated(lam, m, 1e-4) or lam[0] < 1e-6 * sc:
                                continue
                            for what, u, v in (('one- and two-sided', ma, mb), ('conjugate', np.conj(mc), mb)):
                                e = ref.mode_distance(v[..., m], u[..., m])
                                if not e < 1e-6 * max(1, (lam[0] / lam[m]) ** 0.5) * 10:
                                    rep.bad('modes', at + '%s modes %d at bin %d differ by %.3g' % (what, m, f, e))
                                    return rep
    return rep
