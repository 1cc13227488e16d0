'''C31: plots show the data that was asked for.'''
import contextlib
import itertools
import os
import unittest.mock
import numpy as np

from mc import api, gen
from mc.core import Rep, quiet

PROP = 'C31'
LEVEL = 'model_checking'
RULE = ('every plotting function and method x shapes x variables, modes, times, points and slices requested x coordinates given, '
        'exchanged or left out x options: the lines and fields of every figure are recorded when it is saved and compared, '
        'point by point, with the stored or given numbers; names of the files (with dots, spaces, folders), marked maxima, visible range, caller arrays')
ASSUMPTIONS = ['figures are observed through matplotlib (lines of the axes, arguments of the contour and mesh functions) when they are '
               'saved; nothing is rendered', 'for square fields either orientation is accepted', 'the video writer is a stand-in']


# ---------------------------------------------------------------- recording
class Fig:
    def __init__(self, name, fig):
        self.name = name
        self.texts = [t.get_text() for t in fig.texts] + [a.get_title() for a in fig.axes]
        st = getattr(fig, '_suptitle', None)
        self.texts += [st.get_text()] if st is not None else []
        self.lines, self.fields, self.h, self.v, self.lims, self.groups = [], [], [], [], [], []
        for a in fig.axes:
            if hasattr(a, '_colorbar') or a.get_label() == '<colorbar>':
                continue
            rec = getattr(a, '_mc_rec', [])
            marks = {id(r[2]) for r in rec if r[0] in 'hv'}
            ln = [(np.array(q.get_xdata(orig=True)), np.array(q.get_ydata(orig=True))) for q in a.lines if id(q) not in marks]
            self.lines += ln
            if ln:
                self.groups.append(ln)
            fs = [r[1:4] for r in rec if r[0] == 'field']
            self.fields += fs
            self.h += [r[1] for r in rec if r[0] == 'h']
            self.v += [r[1] for r in rec if r[0] == 'v']
            if fs:
                self.lims.append((a.get_xlim(), a.get_ylim()))


class Bar:
    '''stands for a colour bar, which takes long to lay out.'''

    def __init__(self):
        self.ax = unittest.mock.MagicMock()


@contextlib.contextmanager
def recording():
    import matplotlib.pyplot as plt
    from matplotlib import axes, backend_bases, figure
    from matplotlib.backends import backend_pdf
    from mpl_toolkits.axes_grid1 import axes_divider
    out = []
    A, F = axes.Axes, figure.Figure
    real = {}

    def field(nm):
        f = real[nm]

        def g(self, *a, **k):
            r = f(self, *a, **k)
            q = [np.array(i) for i in a if not np.isscalar(i)]
            if len(q) == 1:
                q = [np.arange(q[0].shape[1]), np.arange(q[0].shape[0])] + q
            rec = ('field',) + tuple(q[:3]) + (r,)
            self.__dict__.setdefault('_mc_rec', []).append(rec)
            return r
        return g

    def mark(nm, c):
        f = real[nm]

        def g(self, v, *a, **k):
            r = f(self, v, *a, **k)
            self.__dict__.setdefault('_mc_rec', []).append((c, float(np.ravel(v)[0]), r))
            return r
        return g
    for nm in ('contourf', 'pcolormesh', 'axhline', 'axvline'):
        real[nm] = getattr(A, nm)
    sv, tl, ptl, sh, ps = F.savefig, F.tight_layout, plt.tight_layout, plt.show, backend_pdf.PdfPages.savefig
    A.contourf, A.pcolormesh = field('contourf'), field('pcolormesh')
    A.axhline, A.axvline = mark('axhline', 'h'), mark('axvline', 'v')
    F.savefig = lambda self, name, *a, **k: out.append(Fig(str(name), self))
    backend_pdf.PdfPages.savefig = lambda self, figure=None, **k: out.append(Fig('pdf', figure or plt.gcf()))
    F.tight_layout = lambda self, *a, **k: None
    plt.tight_layout = lambda *a, **k: None
    plt.show = lambda *a, **k: out.append(Fig('show', plt.gcf()))
    cb, dr = figure.FigureBase.colorbar, backend_bases.FigureCanvasBase.draw_idle
    figure.FigureBase.colorbar = lambda *a, **k: Bar()
    backend_bases.FigureCanvasBase.draw_idle = lambda self, *a, **k: None
    ap = axes_divider.AxesDivider.append_axes
    axes_divider.AxesDivider.append_axes = lambda *a, **k: unittest.mock.MagicMock()
    try:
        yield out
    finally:
        for nm in real:
            setattr(A, nm, real[nm])
        F.savefig, F.tight_layout, plt.tight_layout, plt.show = sv, tl, ptl, sh
        figure.FigureBase.colorbar, backend_bases.FigureCanvasBase.draw_idle = cb, dr
        axes_divider.AxesDivider.append_axes = ap
        backend_pdf.PdfPages.savefig = ps
        plt.close('all')


def field_map(x, y, z):
    '''values by coordinates; z has the shape (len(y), len(x)).'''
    if x.ndim == 2:
        x = x[0]
    if y.ndim == 2:
        y = y[:, 0]
    return {(round(float(a), 9), round(float(b), 9)): z[j, i] for i, a in enumerate(x) for j, b in enumerate(y)}


def same_map(a, b):
    return a.keys() == b.keys() and all(abs(a[k] - b[k]) <= 1e-9 + 1e-6 * abs(b[k]) for k in a)


def want_maps(x1, x2, m):
    '''maps that show m over (x1, x2).'''
    out = []
    if m.shape == (len(x2), len(x1)):
        out.append(field_map(np.asarray(x1), np.asarray(x2), m))
    if m.shape == (len(x1), len(x2)):
        out.append(field_map(np.asarray(x1), np.asarray(x2), m.T))
    return out


def bad_field(f, maps, what):
    if not any(same_map(field_map(*f), m) for m in maps):
        return '%s: the field shown is not the one asked for: %r over %r, %r' % (
            what, np.round(f[2], 4).tolist(), np.asarray(f[0]).tolist(), np.asarray(f[1]).tolist())


def bad_lims(f, maps):
    for (a, b), (c, d) in f.lims:
        for k in maps[0]:
            if not (min(a, b) - 1e-9 <= k[0] <= max(a, b) + 1e-9 and min(c, d) - 1e-9 <= k[1] <= max(c, d) + 1e-9):
                return 'the point %r lies outside of the axes (%r, %r)' % (k, (a, b), (c, d))


def names(rep, at, got, want):
    if [os.path.normpath(f.name) for f in got] != [os.path.normpath(w) for w in want]:
        rep.bad('figures', at + 'figures %r instead of %r' % ([f.name for f in got], want))
        return False
    return True


def close(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-6, atol=1e-12, equal_nan=True)


def plan(tier, seed):
    it = [('t_eigs', [i]) for i in range(len(EIGS))]
    it += [('t_modes2', [s, v, c]) for s in range(len(SH2)) for v in range(len(VARS)) for c in range(len(COORDS))]
    it += [('t_modes3', [s, d]) for s in range(len(SH3)) for d in (0, 1, 2)]
    it += [('t_tracers', [s, i]) for s in range(len(SHN)) for i in range(3)]
    it += [('t_data2', [s, c]) for s in range(len(SH2)) for c in range(len(COORDS))]
    it += [('t_data_tracers', [s]) for s in range(len(SHN))]
    it += [('t_video', [s]) for s in range(len(SH2))]
    it += [('t_series', []), ('t_methods', [0]), ('t_methods', [1])] + [('t_report', [i]) for i in range(3)] + [('t_names', [i]) for i in range(13)]
    return it


# ---------------------------------------------------------------- eigenvalues
EIGS = [(1, 1), (3, 2), (5, 3), (4, 1)]


def t_eigs(ctx, i):
    rep = Rep()
    nf, nb = EIGS[i]
    r = gen.rng('c31e', ctx.seed, i)
    for cplx in (False, True):
        e = r.random((nf, nb)) + 0.1 + (1j * r.standard_normal((nf, nb)) if cplx else 0)
        fr = (np.arange(nf) + (nf == 1)) / 8.
        for fn in ('plot_eigs', 'plot_eigs_vs_frequency', 'plot_eigs_vs_period'):
            for title in ('', 'some title'):
                e0, f0 = e.copy(), fr.copy()
                at = '%s of %s eigenvalues %r: ' % (fn, 'complex' if cplx else 'real', (nf, nb))
                rep.case('eigs/%d/%d/%s/%s' % (i, cplx, fn, title))
                with quiet(), recording() as out:
                    if fn == 'plot_eigs':
                        api.post.plot_eigs(e, title=title, path='/p', filename='f.png')
                    else:
                        getattr(api.post, fn)(e, fr, title=title, path='/p', filename='f.png')
                if not names(rep, at, out, ['/p/f.png']):
                    return rep
                check_eigs(rep, at, out[0], fn, e, fr)
                if not (np.array_equal(e, e0) and np.array_equal(fr, f0)):
                    rep.bad('caller', at + 'the arrays of the caller changed')
                if rep.viol:
                    return rep
    return rep


def check_eigs(rep, at, f, fn, e, fr):
    if fn == 'plot_eigs':
        got = sorted((round(float(a), 9), round(float(b), 9)) for x, y in f.lines for a, b in zip(np.ravel(x), np.ravel(y)))
        want = sorted((round(float(v.real), 9), round(float(v.imag), 9)) for v in e.ravel())
        if got != want:
            rep.bad('eigs', at + 'points %r instead of %r' % (got, want))
        return
    with np.errstate(divide='ignore'):
        x = fr if fn.endswith('frequency') else 1. / fr
    if len(f.lines) != e.shape[1]:
        rep.bad('eigs', at + '%d lines instead of %d' % (len(f.lines), e.shape[1]))
        return
    for k, (a, b) in enumerate(f.lines):
        if not close(a, x) or not close(b, e[:, k].real):
            rep.bad('eigs', at + 'line %d shows %r over %r' % (k, b.tolist(), a.tolist()))
            return


# ---------------------------------------------------------------- modes in two dimensions
SH2 = [(2, 3), (4, 2), (3, 3)]
VARS = [[0], [1], [1, 0], 1]
MODES = [[0], [2, 0], (1,), 1, [1, 7], [7, 0, 2]]
COORDS = ['none', 'given', 'exchanged', 'positive', 'negative']
FREQ = np.array([0., .125, .25, .375])


def aslist(i):
    return [i] if isinstance(i, int) else list(i)


def coords(kind, shape):
    '''x1, x2 for fields of the given shape (x1 along the second axis unless exchanged).'''
    if kind == 'none':
        return None, None
    a, b = np.linspace(-1.5, 2.5, shape[1]), np.linspace(-.75, 3.25, shape[0]) ** 3
    if kind == 'positive':
        a, b = a + 12., b + 30.
    if kind == 'negative':
        a, b = a - 12., b - 40.
    return (b, a) if kind == 'exchanged' else (a, b)


def store(d, seed, shape, nv, nm):
    os.makedirs(d + '/modes')
    m = []
    for f in range(len(FREQ)):
        r = gen.rng('c31m', seed, shape, nv, nm, f)
        q = r.standard_normal(shape + (nv, nm)) + 1j * r.standard_normal(shape + (nv, nm))
        np.save('%s/modes/freq_idx_%08d.npy' % (d, f), q)
        m.append(q)
    return m


def t_modes2(ctx, si, vi, ci):
    rep = Rep()
    shape, nv, nm = SH2[si], 2, 3
    with ctx.tmp() as d:
        M = store(d, ctx.seed, shape, nv, nm)
        x1, x2 = coords(COORDS[ci], shape)
        e1, e2 = (x1, x2) if x1 is not None else (np.arange(shape[0]), np.arange(shape[1]))
        optl = [dict(imaginary=i, plot_max=p) for i in (False, True) for p in (False, True)]
        optl += [dict(fftshift=True), dict(title='some title', xticks=[0, 1], coastlines='regular'), dict(limits_x1=(1,), limits_x2=(0, -1)),
                 dict(limits_x1=(0, 2), imaginary=True), dict(given=True)]
        if x1 is not None and len(x1) % 2 == 0 and len(x1) != len(x2):
            optl.append(dict(shift180=True))
        for oi, opts in enumerate(optl):
            for mi, modes_idx in enumerate(MODES):
                if oi > 3 and mi > 1 and ctx.tier == 'quick':
                    continue
                for fi, req in ((0, -1.), (1, .15), (3, 9.)) if mi < 2 else ((2, .22),):
                    lx1, lx2 = [slice(*opts.get(q, (None,))) for q in ('limits_x1', 'limits_x2')]
                    if len(e1[lx1]) < 2 or len(e2[lx2]) < 2:
                        continue
                    at = 'plot_2d_modes_at_frequency of %r modes, frequency %r, variables %r, modes %r, coordinates %s, %r: ' % (
                        shape, req, VARS[vi], modes_idx, COORDS[ci], opts)
                    rep.case('modes2/%d/%d/%d/%d/%d/%d' % (si, vi, ci, oi, mi, fi))
                    keep = [None if q is None else q.copy() for q in (x1, x2)]
                    o = dict(opts)
                    m = M[fi]
                    if o.pop('given', False):
                        m = np.conj(m) + 2
                        o['modes'] = m.copy()
                    with quiet(), recording() as out:
                        api.post.plot_2d_modes_at_frequency(d, req, FREQ, vars_idx=VARS[vi], modes_idx=modes_idx, x1=x1, x2=x2, path='/p',
                                                            filename='f.png', **o)
                    pairs = [(v, k) for v in aslist(VARS[vi]) for k in aslist(modes_idx) if k < nm]
                    if not names(rep, at, out, ['/p/f_var%d_mode%d.png' % p for p in pairs]):
                        return rep
                    if any(a is not None and not np.array_equal(a, b) for a, b in zip((x1, x2), keep)):
                        rep.bad('caller', at + 'the coordinates of the caller changed')
                    for f, (v, k) in zip(out, pairs):
                        q = m[:, :, v, k]
                        if opts.get('fftshift'):
                            q = np.fft.fftshift(q, axes=1)
                        judge2(rep, at, f, q, e1, e2, lx1, lx2, opts)
                        if not any('mode: %d' % k in t and 'var: %d' % v in t for t in f.texts):
                            rep.bad('title', at + 'titles %r' % (f.texts,))
                    if rep.viol:
                        return rep
        for f in range(len(FREQ)):
            if not np.array_equal(np.load('%s/modes/freq_idx_%08d.npy' % (d, f)), M[f]):
                rep.bad('stored', 'plotting changed the stored modes')
    return rep


def judge2(rep, at, f, q, e1, e2, lx1, lx2, opts):
    parts = [np.real, np.imag] if opts.get('imaginary') else [np.real]
    if len(f.fields) != len(parts):
        rep.bad('field', at + '%d fields' % len(f.fields))
        return
    for g, part in zip(f.fields, parts):
        cand = []
        for z in ([q] if q.shape == (len(e2), len(e1)) else []) + ([q.T] if q.T.shape == (len(e2), len(e1)) else []):
            x = np.asarray(e1, dtype=float)
            if opts.get('shift180'):
                # the column at longitude l is shown at l - 180 and those from 180 on come first
                n = len(x) // 2
                z, x = np.hstack((z[:, n:], z[:, :n])), x - 180
            z = z[lx2, lx1]
            cand.append((field_map(x[lx1], np.asarray(e2)[lx2], part(z)), z, x[lx1], np.asarray(e2)[lx2]))
        hit = [c for c in cand if same_map(field_map(*g), c[0])]
        if not hit:
            rep.bad('field', at + bad_field(g, [c[0] for c in cand], f.name))
            return
        msg = bad_lims(f, [hit[0][0]])
        if msg:
            rep.bad('limits', at + msg)
        if opts.get('plot_max'):
            ok = False
            for _, z, x, y in hit:
                j, i = np.unravel_index(np.argmax(np.abs(z)), z.shape)
                ok = ok or (close(sorted(set(f.v)), [x[i]]) and close(sorted(set(f.h)), [y[j]]))
            if not ok or len(f.v) != len(parts) or len(f.h) != len(parts):
                rep.bad('maximum', at + 'the lines at %r and %r do not cross at the largest magnitude' % (f.v, f.h))
        elif f.v or f.h:
            rep.bad('maximum', at + 'lines without being asked for')


# ---------------------------------------------------------------- slices of three-dimensional modes
SH3 = [(2, 3, 4), (3, 3, 3), (3, 3, 2), (2, 4, 4), (3, 2, 3)]


def t_modes3(ctx, si, dim):
    rep = Rep()
    shape, nv, nm = SH3[si], 2, 2
    with ctx.tmp() as d:
        M = store(d, ctx.seed, shape, nv, nm)
        for kind in ('none', 'given'):
            xs = [None] * 3 if kind == 'none' else [np.linspace(1 + 10 * i, 3 + 10 * i, n) for i, n in enumerate(shape)]
            ex = [np.arange(n) for n in shape] if kind == 'none' else xs
            for sid in [None] + list(range(shape[dim])):
                for opts in (dict(), dict(imaginary=True), dict(plot_max=True), dict(plot_max=True, imaginary=True), dict(fftshift=True),
                             dict(title='some title')):
                    for vs, ms, fi, req in (([0], [0], 1, .1), ([1, 0], [1], 3, .4), (1, [0, 1], 0, 0.), ([0, 1], 1, 2, .26)):
                        at = '3D slice %r along axis %d of %r modes, variables %r, modes %r, coordinates %s, %r: ' % (
                            sid, dim, shape, vs, ms, kind, opts)
                        rep.case('modes3/%d/%d/%s/%s/%r/%d' % (si, dim, kind, sid, sorted(opts), fi))
                        with quiet(), recording() as out:
                            api.post.plot_3d_modes_slice_at_frequency(d, req, FREQ, vars_idx=vs, modes_idx=ms, x1=xs[0], x2=xs[1], x3=xs[2],
                                                                      slice_dim=dim, slice_id=sid, path='/p', filename='f.png', **opts)
                        pairs = [(v, k) for v in aslist(vs) for k in aslist(ms)]
                        if not names(rep, at, out, ['/p/f_var%d_mode%d.png' % p for p in pairs]):
                            return rep
                        for f, (v, k) in zip(out, pairs):
                            m = M[fi][..., v, k]
                            i = sid if sid is not None else np.unravel_index(np.argmax(np.abs(m)), m.shape)[dim]
                            q = np.take(m, i, axis=dim)
                            if opts.get('fftshift'):
                                q = np.fft.fftshift(q, axes=1)
                            c = [x for j, x in enumerate(ex) if j != dim]
                            parts = [np.real, np.imag] if opts.get('imaginary') else [np.real]
                            if len(f.fields) != len(parts):
                                rep.bad('field', at + '%d fields' % len(f.fields))
                                return rep
                            for g, part in zip(f.fields, parts):
                                w = field_map(c[0], c[1], part(q).T)
                                msg = bad_field(g, [w], f.name) or bad_lims(f, [w])
                                if msg:
                                    rep.bad('field', at + msg)
                                    return rep
                            if opts.get('plot_max'):
                                a, b = np.unravel_index(np.argmax(np.abs(q)), q.shape)
                                if not close(sorted(set(f.v)), [c[0][a]]) or not close(sorted(set(f.h)), [c[1][b]]):
                                    rep.bad('maximum', at + 'the lines at %r and %r do not cross at the largest magnitude' % (f.v, f.h))
                                    return rep
    return rep


# ---------------------------------------------------------------- tracers
SHN = [(5,), (2, 3), (3, 2, 2), (1, 4), (1,)]


def grids(shape):
    return [np.linspace(1., 2., n) * (i + 1) + i for i, n in enumerate(shape)]


def points(shape):
    '''requested and nearest points, with their indices.'''
    g = grids(shape)
    out = []
    for k in range(3):
        idx = tuple((k * (i + 1)) % n for i, n in enumerate(shape))
        req = tuple(float(x[j]) + .01 for x, j in zip(g, idx))
        out.append((req, tuple(x[j] for x, j in zip(g, idx)), idx))
    return out


def t_tracers(ctx, si, pi):
    rep = Rep()
    shape, nv, nm = SHN[si], 2, 3
    with ctx.tmp() as d:
        M = store(d, ctx.seed, shape, nv, nm)
        pts = points(shape)
        sets = [[pts[pi]]] + ([[pts[pi], pts[(pi + 1) % 3]]] if pts[pi][2] != pts[(pi + 1) % 3][2] else [])
        for ps in sets:
            for x in (None, grids(shape)):
                for vs in VARS:
                    for ms in ([0], [2, 0], 1):
                        for fi, req in ((1, .13), (3, .36)):
                            if x is None:
                                rq = [tuple(float(i) + .2 for i in p[2]) for p in ps]
                            else:
                                rq = [p[0] for p in ps]
                            at = 'tracers of %r modes at %r, variables %r, modes %r, coordinates %s: ' % (
                                shape, rq, vs, ms, 'given' if x else 'none')
                            rep.case('tracers/%d/%d/%d/%s/%r/%r/%d' % (si, pi, len(ps), x is None, vs, ms, fi))
                            with quiet(), recording() as out:
                                api.post.plot_mode_tracers(d, req, FREQ, list(rq), x=x, vars_idx=vs, modes_idx=ms, path='/p', filename='f.png')
                            if len(out) != len(ps) * len(aslist(vs)) or len({f.name for f in out}) != len(out):
                                rep.bad('figures', at + 'figures %r' % [f.name for f in out])
                                return rep
                            for f, (p, v) in zip(out, itertools.product(ps, aslist(vs))):
                                val = M[fi][p[2] + (v,)]
                                if '_var%d_' % v not in f.name or len(f.groups) != len(aslist(ms)):
                                    rep.bad('figures', at + '%s with %d axes' % (f.name, len(f.groups)))
                                    return rep
                                for g, k in zip(f.groups, aslist(ms)):
                                    y = g[0][1]
                                    n = len(y)
                                    ok = len(g) == 1 and any(close(y, np.real(val[k] * np.exp(-1j * np.linspace(0, c * np.pi, n))))
                                                             for c in (2, 10))
                                    if not ok or len(g[0][0]) != n:
                                        rep.bad('tracer', at + '%s, variable %d, mode %d: lines %r' % (
                                            f.name, v, k, [np.round(q[1][:3], 4).tolist() for q in g]))
                                        return rep
    return rep


# ---------------------------------------------------------------- data
def t_data2(ctx, si, ci):
    rep = Rep()
    shape = SH2[si]
    for cplx in (False, True):
        X = gen.field(ctx.seed, 7, shape, 2, 'complex' if cplx else 'real')
        x1, x2 = coords(COORDS[ci], shape)
        e1, e2 = (x1, x2) if x1 is not None else (np.arange(shape[0]), np.arange(shape[1]))
        for vs in VARS:
            for ts in ([0], [6, 2], (3,), 5, [-1]):
                for opts in (dict(), dict(title='some title', equal_axes=True), dict(coastlines='centred', xticks=[1.])):
                    at = 'plot_2d_data of %r fields, times %r, variables %r, coordinates %s, %r: ' % (shape, ts, vs, COORDS[ci], opts)
                    rep.case('data2/%d/%d/%d/%r/%r/%r' % (si, ci, cplx, vs, ts, sorted(opts)))
                    X0 = X.copy()
                    with quiet(), recording() as out:
                        api.post.plot_2d_data(X, time_idx=ts, vars_idx=vs, x1=x1, x2=x2, path='/p', filename='f.png', **opts)
                    if not judge_data(rep, at, out, X0, aslist(vs), aslist(ts), e1, e2):
                        return rep
                    if not np.array_equal(X, X0):
                        rep.bad('caller', at + 'the data of the caller changed')
                        return rep
    return rep


def judge_data(rep, at, out, X, vs, ts, e1, e2, d='/p'):
    pairs = [(v, t) for v in vs for t in ts]
    if not names(rep, at, out, ['%s/f_var%d_time%d.png' % ((d,) + p) for p in pairs]):
        return False
    for f, (v, t) in zip(out, pairs):
        maps = want_maps(e1, e2, X[t, ..., v].real)
        msg = '%d fields' % len(f.fields) if len(f.fields) != 1 else bad_field(f.fields[0], maps, f.name) or bad_lims(f, maps)
        if msg:
            rep.bad('field', at + msg)
            return False
        if not any('time id %d' % t in q and 'variable %d' % v in q for q in f.texts):
            rep.bad('title', at + 'titles %r' % (f.texts,))
            return False
    return True


def t_data_tracers(ctx, si):
    rep = Rep()
    shape = SHN[si]
    X = gen.field(ctx.seed, 9, shape, 2)
    pts = points(shape)
    for ps in [[pts[0]]] + ([[pts[1], pts[2]]] if pts[1][2] != pts[2][2] else []):
        for x in (None, grids(shape)):
            for vs in VARS:
                for lim in ([0, 9], [3, 7], [0, 1], [8, 9], (2, 9)):
                    rq = [tuple(float(i) + .2 for i in p[2]) for p in ps] if x is None else [p[0] for p in ps]
                    at = 'data tracers of %r data at %r, times %r, variables %r: ' % (shape, rq, lim, vs)
                    rep.case('dtracers/%d/%d/%s/%r/%r' % (si, len(ps), x is None, vs, lim))
                    with quiet(), recording() as out:
                        api.post.plot_data_tracers(X, list(rq), x=x, time_limits=lim, vars_idx=vs, path='/p', filename='f.png')
                    if not judge_dtracers(rep, at, out, X, ps, aslist(vs), lim):
                        return rep
    return rep


def judge_dtracers(rep, at, out, X, ps, vs, lim):
    want = list(itertools.product(ps, vs))
    if len(out) != len(want) or len({f.name for f in out}) != len(out) or any('_var%d' % v not in f.name for f, (p, v) in zip(out, want)):
        rep.bad('figures', at + 'figures %r' % [f.name for f in out])
        return False
    for f, (p, v) in zip(out, want):
        if len(f.lines) != 1 or not close(f.lines[0][0], np.arange(lim[0], lim[1])) or not close(f.lines[0][1], X[(slice(*lim),) + p[2] + (v,)]):
            rep.bad('tracer', at + '%s: %r' % (f.name, [(a.tolist(), b.tolist()) for a, b in f.lines]))
            return False
    return True


# ---------------------------------------------------------------- coefficients, time series, subplots
def t_series(ctx):
    rep = Rep()
    r = gen.rng('c31s', ctx.seed)
    c = r.standard_normal((4, 6))
    for idx in ([0], [3, 1], [2, 2], (0, 1, 2, 3)):
        for fn in ('f.png', None):
            at = 'plot_coeffs, %r, file %r: ' % (idx, fn)
            rep.case('coeffs/%r/%s' % (idx, fn))
            with quiet(), recording() as out:
                api.post.plot_coeffs(c, coeffs_idx=idx, path='/p', filename=fn)
            if not names(rep, at, out, ['/p/f_coeff_id%d.png' % i if fn else 'show' for i in idx]):
                return rep
            for f, i in zip(out, idx):
                if len(f.lines) != 1 or not close(f.lines[0][1], c[i]) or not close(f.lines[0][0], np.arange(6)):
                    rep.bad('coeffs', at + 'coefficient %d: lines %r' % (i, [b.tolist() for _, b in f.lines]))
                    return rep
    for n in (1, 5):
        a, b = r.standard_normal(n), r.standard_normal(n)
        for fn in ('plot_compare_time_series', 'plot_training_histories'):
            rep.case('series/%s/%d' % (fn, n))
            with quiet(), recording() as out:
                getattr(api.post, fn)(a, b, path='/p', filename='f.png')
            if not names(rep, fn + ': ', out, ['/p/f.png']):
                return rep
            if len(out[0].lines) != 2 or not close(out[0].lines[0][1], a) or not close(out[0].lines[1][1], b):
                rep.bad('series', '%s: lines %r' % (fn, out[0].lines))
                return rep
    v = [r.standard_normal((3, 4)) + i for i in range(3)]
    for n in (1, 2, 3):
        rep.case('subplot/%d' % n)
        kw = {}
        for i in range(1, n):
            kw['var%d' % (i + 1)], kw['title%d' % (i + 1)] = v[i], 't%d' % (i + 1)
        with quiet(), recording() as out:
            api.post.generate_2d_subplot(v[0], 't1', path='/p', filename='f.png', **kw)
        if not names(rep, 'generate_2d_subplot: ', out, ['/p/f.png']):
            return rep
        if len(out[0].fields) != n or any(not close(f[2], w) for f, w in zip(out[0].fields, v)):
            rep.bad('subplot', 'generate_2d_subplot of %d fields shows %d others' % (n, len(out[0].fields)))
            return rep
    return rep


def t_names(ctx, which):
    '''every request has a file of its own: the name asked for with the request before its ending, in the folder asked for.'''
    rep = Rep()
    P = api.post
    shape, nv, nm = (2, 3), 2, 3
    x = gen.field(ctx.seed, 12, shape, nv)
    with ctx.tmp() as d:
        store(d, ctx.seed, shape, nv, nm)
        os.mkdir(d + '/t')
        store(d + '/t', ctx.seed, (2, 2, 3), nv, nm)
        e = np.arange(6.).reshape(2, 3) + 1
        pt = [(0., 1.), (1., 2.)]
        calls = [
            (P.plot_eigs, (e,), {}, ['']), (P.plot_eigs_vs_frequency, (e, FREQ[:2] + 1), {}, ['']),
            (P.plot_eigs_vs_period, (e, FREQ[:2] + 1), {}, ['']),
            (P.plot_2d_modes_at_frequency, (d, .125, FREQ), dict(vars_idx=[1, 0], modes_idx=[2, 1]),
             ['_var%d_mode%d' % q for q in ((1, 2), (1, 1), (0, 2), (0, 1))]),
            (P.plot_3d_modes_slice_at_frequency, (d + '/t', .125, FREQ), dict(vars_idx=[1, 0], modes_idx=[2, 1]),
             ['_var%d_mode%d' % q for q in ((1, 2), (1, 1), (0, 2), (0, 1))]),
            (P.plot_mode_tracers, (d, .125, FREQ, list(pt)), dict(vars_idx=[1, 0], modes_idx=[0]), None),
            (P.plot_coeffs, (e,), dict(coeffs_idx=[1, 0]), ['_coeff_id1', '_coeff_id0']),
            (P.plot_2d_data, (x,), dict(time_idx=[2, 0], vars_idx=[1, 0]), ['_var%d_time%d' % q for q in ((1, 2), (1, 0), (0, 2), (0, 0))]),
            (P.plot_data_tracers, (x, list(pt)), dict(vars_idx=[0, 1]), None),
            (P.generate_2d_subplot, (x[0, ..., 0], 't1'), {}, ['']), (P.plot_compare_time_series, (e[0], e[1]), {}, ['']),
            (P.plot_training_histories, (e[0], e[1]), {}, ['']),
            (P.generate_2d_data_video, (x,), dict(time_limits=[0, 3], vars_idx=[1, 0]), ['_var1', '_var0'])]
        for fn, a, kw, tags in [calls[which]]:
            for base, ext in itertools.product(('f', 'run.1', 'a.b.c', '.hidden', 'with space', 'sub/f.2'), ('.png', '.pdf')):
                for path in ('/p', '/p.1/q', 'rel'):
                    rep.case('names/%s/%s/%s/%s' % (fn.__name__, base, ext, path))
                    kw2 = dict(kw, path=path, filename=base + ext)
                    if fn is P.generate_2d_data_video:
                        got = [n for n, _ in video(lambda: fn(*a, **kw2))]
                    else:
                        with quiet(), recording() as out:
                            fn(*a, **kw2)
                        got = [f.name for f in out]
                    pre = os.path.normpath(os.path.join(path, base))
                    got = [os.path.normpath(g) for g in got]
                    if tags is None:
                        ok = len(set(got)) == len(got) == 4 and all(g.startswith(pre + '_') and g.endswith(ext) for g in got)
                    else:
                        ok = got == [pre + t + ext for t in tags]
                    if not ok:
                        rep.bad('names', '%s to %s in %s: files %r' % (fn.__name__, base + ext, path, got))
                        return rep
    return rep


# ---------------------------------------------------------------- video
def video(fn):
    '''frames (fields) and file of every video that fn makes.'''
    import shutil
    from matplotlib import animation
    out = []

    class Anim:
        def __init__(self, fig, artists, *a, **k):
            rec = {id(r[4]): r[1:4] for ax in fig.axes for r in getattr(ax, '_mc_rec', []) if r[0] == 'field'}
            self.frames = [[rec.get(id(q)) for q in fr][0] for fr in artists]

        def save(self, name, *a, **k):
            out.append((str(name), self.frames))
    w, an, wr = shutil.which, animation.ArtistAnimation, animation.writers
    shutil.which = lambda c, *a, **k: '/bin/' + c
    animation.ArtistAnimation = Anim
    animation.writers = {'ffmpeg': lambda *a, **k: None}
    try:
        with quiet(), recording():
            fn()
    finally:
        shutil.which, animation.ArtistAnimation, animation.writers = w, an, wr
    return out


def judge_video(rep, at, out, X, vs, ts, e1, e2, names_):
    if [os.path.normpath(n) for n, _ in out] != names_:
        rep.bad('figures', at + 'videos %r' % [n for n, _ in out])
        return False
    for (n, frames), v in zip(out, vs):
        if len(frames) != len(ts):
            rep.bad('frames', at + '%d frames instead of %d' % (len(frames), len(ts)))
            return False
        for fr, t in zip(frames, ts):
            msg = bad_field(fr, want_maps(e1, e2, X[t, ..., v]), '%s, time %d' % (n, t))
            if msg:
                rep.bad('frames', at + msg)
                return False
    return True


def t_video(ctx, si):
    rep = Rep()
    shape = SH2[si]
    X = gen.field(ctx.seed, 9, shape, 2)
    for ci in range(3):
        x1, x2 = coords(COORDS[ci], shape)
        e1, e2 = (x1, x2) if x1 is not None else (np.arange(shape[0]), np.arange(shape[1]))
        for vs in ([0], [1, 0], [1]):
            for lim in ([0, 9], [2, 8], (5, 6)):
                for k in (1, 2, 3):
                    for coast in ('', 'regular', 'centred'):
                        at = 'video of %r data, variables %r, times %r, every %d, coordinates %s, coastlines %r: ' % (
                            shape, vs, lim, k, COORDS[ci], coast)
                        rep.case('video/%d/%d/%r/%r/%d/%s' % (si, ci, vs, lim, k, coast))
                        out = video(lambda: api.post.generate_2d_data_video(X, time_limits=lim, vars_idx=vs, sampling=k, x1=x1, x2=x2,
                                                                            coastlines=coast, path='/p', filename='v.mp4'))
                        if not judge_video(rep, at, out, X, vs, list(range(lim[0], lim[1], k)), e1, e2, ['/p/v_var%d.mp4' % v for v in vs]):
                            return rep
    return rep


# ---------------------------------------------------------------- methods of a fit
def t_methods(ctx, which):
    rep = Rep()
    cls = (api.Standard, api.Streaming)[which]
    with ctx.tmp() as d, quiet():
        for shape, nv in (((2, 3), 2), ((3, 2), 1), ((2, 3, 2), 2)):
            x = gen.field(ctx.seed, 16, shape, nv)
            s = api.fit([x], api.params(n_dft=4, dt=.5, xdim=len(shape), nv=nv, savedir=d, n_modes_save=2), None, cls)
            p = os.path.normpath(s.savedir_sim)
            at = '%s fit of %r data: ' % (cls.__name__ + ('', ' streaming')[which], shape)
            M = [np.array(s.get_modes_at_freq(f)) for f in range(len(s.freq))]
            e, fr = np.array(s.eigs), np.array(s.freq)
            for fn in ('plot_eigs', 'plot_eigs_vs_frequency', 'plot_eigs_vs_period'):
                for f2 in (None, fr * 2) if fn != 'plot_eigs' else (None,):
                    rep.case('method/%d/%r/%s/%s' % (which, shape, fn, f2 is None))
                    with recording() as out:
                        getattr(s, fn)(filename='f.png', **({} if f2 is None else {'freq': f2}))
                    if not names(rep, at + fn + ': ', out, [p + '/f.png']):
                        return rep
                    check_eigs(rep, at + fn + ': ', out[0], fn, e, fr if f2 is None else f2)
            vs = list(range(nv))
            for fi in range(len(fr)):
                rep.case('method/%d/%r/modes/%d' % (which, shape, fi))
                with recording() as out:
                    if len(shape) == 2:
                        g = [np.linspace(5, 6, shape[1]), np.linspace(1, 2, shape[0])]
                        s.plot_2d_modes_at_frequency(fr[fi], fr, vars_idx=vs, modes_idx=[1, 0], x1=g[0], x2=g[1], imaginary=True,
                                                     filename='f.png')
                    else:
                        g = [np.linspace(5 * i, 5 * i + 1, n) for i, n in enumerate(shape)]
                        s.plot_3d_modes_slice_at_frequency(fr[fi], fr, vars_idx=vs, modes_idx=[1, 0], x1=g[0], x2=g[1], x3=g[2], slice_dim=1,
                                                           slice_id=2, imaginary=True, filename='f.png')
                pairs = [(v, k) for v in vs for k in (1, 0)]
                if not names(rep, at, out, ['%s/f_var%d_mode%d.png' % ((p,) + q) for q in pairs]):
                    return rep
                for f, (v, k) in zip(out, pairs):
                    for h, part in zip(f.fields, (np.real, np.imag)):
                        q = part(M[fi][..., v, k])
                        w = want_maps(g[0], g[1], q) if len(shape) == 2 else [field_map(g[0], g[2], q[:, 2].T)]
                        msg = bad_field(h, w, f.name)
                        if msg or len(f.fields) != 2:
                            rep.bad('field', at + 'frequency %d: ' % fi + (msg or 'fields'))
                            return rep
                pts = points(shape)
                with recording() as out:
                    if fr[fi] > 0:
                        s.plot_mode_tracers(fr[fi], fr, [pts[1][0]], x=grids(shape), vars_idx=vs, modes_idx=[1], filename='f.png')
                for f, v in zip(out, vs):
                    if not os.path.normpath(f.name).startswith(p + '/') or len(f.lines) != 1 or abs(
                            f.lines[0][1][0] - M[fi][pts[1][2] + (v, 1)].real) > 1e-9:
                        rep.bad('tracer', at + 'mode tracer at frequency %d' % fi)
                        return rep
            for lim in ([0, 16], [5, 9], [15, 16]):
                rep.case('method/%d/%r/tracers/%r' % (which, shape, lim))
                with recording() as out:
                    s.plot_data_tracers(x, [points(shape)[2][0]], x=grids(shape), time_limits=lim, vars_idx=vs, filename='f.png')
                if not judge_dtracers(rep, at + 'data tracers, times %r: ' % lim, out, x, [points(shape)[2]], vs, lim):
                    return rep
            if len(shape) == 2:
                e1, e2 = np.arange(shape[1]) + 3., np.arange(shape[0]) - 8.
                for ts in ([0], [15, 3], (7,)):
                    rep.case('method/%d/%r/data/%r' % (which, shape, ts))
                    with recording() as out:
                        s.plot_2d_data(x, time_idx=ts, vars_idx=vs, x1=e1, x2=e2, filename='f.png')
                    if not judge_data(rep, at + 'data, times %r: ' % (ts,), out, x, vs, list(ts), e1, e2, p):
                        return rep
                for lim in ([0, 16], [5, 9]):
                    rep.case('method/%d/%r/video/%r' % (which, shape, lim))
                    out = video(lambda: s.generate_2d_data_video(x, time_limits=lim, vars_idx=vs, x1=e1, x2=e2, filename='v.mp4'))
                    if not judge_video(rep, at + 'video, times %r: ' % lim, out, x, vs, list(range(*lim)), e1, e2,
                                       [p + '/v_var%d.mp4' % v for v in vs]):
                        return rep
            if rep.viol:
                return rep
    return rep


def t_report(ctx, i):
    '''the report: for every peak a page with the eigenvalues and the peak, and one with the mode there.'''
    rep = Rep()
    shape, nv = (2, 3), 2
    r = gen.rng('c31r', ctx.seed, i)
    with ctx.tmp() as d, quiet():
        nt, n = 96, 24
        x = .05 * gen.field(ctx.seed, nt, shape, nv)
        for f in ((3, 8), (2,), (4, 7, 11))[i]:
            x = x + np.cos(2 * np.pi * f * np.arange(nt) / n + i)[:, None, None, None] * (1 + r.random(shape + (nv,)))
        s = api.fit([x], api.params(n_dft=n, dt=.5, xdim=2, nv=nv, savedir=d, n_modes_save=4))
        e, fr = np.array(s.eigs), np.array(s.freq)
        x1, x2 = np.arange(3.), np.arange(2.)
        with recording() as out:
            s.plot_report(x1, x2, path=d, filename='r.pdf')
        rep.case('report/%d' % i, pages=len(out))
        at = 'report: '
        if len(out) % 2 or not out:
            rep.bad('pages', at + '%d pages' % len(out))
            return rep
        seen = set()
        for a, b in zip(out[::2], out[1::2]):
            nb = e.shape[1]
            if len(a.lines) != nb + 1 or any(not close(q[0], fr[1:]) or not close(q[1], e[1:, k].real) for k, q in enumerate(a.lines[:nb])):
                rep.bad('pages', at + 'the eigenvalues shown are not those of the fit')
                return rep
            px, py = [float(np.ravel(q)[0]) for q in a.lines[nb]]
            k = [q for q in range(nb) if 'mode %d' % q in ' '.join(a.texts)]
            j = int(np.argmin(np.abs(fr - px)))
            if len(k) != 1 or abs(fr[j] - px) > 1e-12 or abs(e[j, k[0]].real - py) > 1e-9 * abs(py) or (j, k[0]) in seen:
                rep.bad('peak', at + 'the mark at %r is not an eigenvalue of the mode in %r' % ((px, py), a.texts))
                return rep
            k = k[0]
            seen.add((j, k))
            col = e[1:, k].real
            if any(0 <= q < len(col) and col[q] >= py for q in (j - 2, j)):
                rep.bad('peak', at + 'no peak at frequency %d of mode %d' % (j, k))
                return rep
            msg = bad_field(b.fields[0], want_maps(x1, x2, np.asarray(s.get_modes_at_freq(j))[..., 0, k].real), 'mode page')
            if msg:
                rep.bad('field', at + msg)
                return rep
        for f in ((3, 8), (2,), (4, 7, 11))[i]:
            if (f, 0) not in seen:
                rep.bad('missed', at + 'the peak at frequency %d is not in the report: %r' % (f, sorted(seen)))
    return rep
