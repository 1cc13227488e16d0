'''C27: look-ups return the nearest entry and the stored modes.'''
import itertools
import os
import shutil
import numpy as np

from mc import api, cmp, gen, ref, spmd
from mc.core import Rep, quiet

PROP = 'C27'
LEVEL = 'model_checking'
RULE = ('every axis of up to 5 entries over a small alphabet (unsorted, negative, repeated) x every request around and '
        'between its entries; every grid of 1 to 3 axes (ascending, descending, irregular) x every request per axis; '
        'mode look-ups for serial, parallel and per-mode results with up to 13 frequencies and modes (and one with 111 frequencies), in folders '
        'named and addressed in different ways; every range of snapshots of every kind of fit; stored arrays of every type, shape and order')
VALS = [-2.0, -0.5, 0.0, 0.25, 1.0, 3.0]
AXES = [np.array(a) for a in ([4.0], [0.0, 1.0], [3.0, 1.5], [-1.0, 0.0, 2.5], [2.0, 1.0, 0.0], [0.0, 0.1, 5.0, 6.0], [10.0, 11.5, 12.0, 14.0],
                              [-3.0, -2.0, -1.0, 0.0, 1.0])] + [np.arange(4)]


def plan(tier, seed):
    it = [('t_freq', [n]) for n in range(1, 5 if tier == 'quick' else 6)] + [('t_object', []), ('t_data', [])]
    it += [('t_coords', [nd]) for nd in (1, 2, 3)]
    it += [('t_modes', [k, n]) for k in range(len(RUNS)) for n in (0, 1, 2, 3) if k < 4 or n in (0, 2)]
    return it


def requests(a):
    s = sorted(set(float(v) for v in a))
    out = list(s) + [s[0] - 1.3, s[-1] + 1.3]
    for x, y in zip(s, s[1:]):
        out += [(x + y) / 2, x + 0.3 * (y - x), x + 0.7 * (y - x)]
    return out


def near(rep, at, a, q, val, idx):
    a = np.asarray(a, dtype=float)
    i = int(idx)
    if i != idx or not 0 <= i < len(a):
        rep.bad('index', at + 'index %r' % (idx,))
    elif not a[i] == val:
        rep.bad('value', at + 'value %r but entry %d is %r' % (val, i, a[i]))
    elif not abs(a[i] - q) <= np.abs(a - q).min() * (1 + 1e-12):
        rep.bad('nearest', at + 'entry %d (%r) is not the nearest one' % (i, a[i]))


def t_freq(ctx, n):
    rep = Rep()
    with quiet():
        for a in itertools.product(VALS, repeat=n):
            for q in requests(a):
                rep.case('freq/%r/%r' % (a, q), axis=a, request=q)
                for form in ((np.array,) if n > 3 else (np.array, list, tuple)):
                    v, i = api.post.find_nearest_freq(freq_req=q, freq=form(a))
                    near(rep, 'frequency %r in %r: ' % (q, form(a)), a, q, v, i)
            if rep.viol:
                return rep
    return rep


def t_object(ctx):
    '''through a fitted object, with its own axis.'''
    rep = Rep()
    with quiet(), ctx.tmp() as d:
        for k, (nd, kind, full) in enumerate(itertools.product((4, 5, 6, 9), ('real', 'complex'), (False, True))):
            x = gen.field(ctx.seed, 4 * nd, (3, 2), 1, kind)
            s = api.fit([x], api.params(n_dft=nd, dt=0.2, xdim=2, nv=1, savedir='%s/%d' % (d, k), fullspectrum=full))
            f = np.array(s.freq)
            for q in requests(f):
                rep.case('object/%d/%s/%s/%r' % (nd, kind, full, q), n_dft=nd, request=q)
                for arg in (None, f, list(f)):
                    v, i = s.find_nearest_freq(freq_req=q, freq=arg)
                    near(rep, 'n_dft %d, %s data, frequency %r: ' % (nd, kind, q), f, q, v, i)
            ax = [np.array([0.5, 1.0, 4.0]), np.array([2.0, -1.0])]
            for q in itertools.product(*[requests(a) for a in ax]):
                rep.case('objcoord/%d/%s/%s/%r' % (nd, kind, full, q))
                v, i = s.find_nearest_coords(coords=q, x=ax)
                for j in range(2):
                    near(rep, 'coordinates %r, axis %d: ' % (q, j), ax[j], q[j], v[j], i[j])
            if rep.viol:
                return rep
    return rep


def t_coords(ctx, nd):
    rep = Rep()
    axes = AXES if nd < 3 or ctx.tier != 'quick' else AXES[1:7:2] + [AXES[0]]
    with quiet():
        for ax in itertools.product(axes, repeat=nd):
            rq = [requests(a) for a in ax]
            if nd == 3:
                rq = [r[::2] for r in rq]
            shape = tuple(len(a) for a in ax)
            data = np.arange(int(np.prod(shape))).reshape(shape)
            for q in itertools.product(*rq):
                rep.case('coords/%r/%r' % ([list(a) for a in ax], q), axes=[list(a) for a in ax], request=q)
                v, i = api.post.find_nearest_coords(coords=q, x=list(ax), data_space_dim=shape)
                at = 'coordinates %r on %r: ' % (q, [list(a) for a in ax])
                if len(v) != nd or len(i) != nd:
                    rep.bad('dims', at + '%r, %r' % (v, i))
                    return rep
                for j in range(nd):
                    near(rep, at + 'axis %d: ' % j, ax[j], q[j], v[j], i[j])
                if not rep.viol and np.ndim(data[tuple(i)]) != 0:
                    rep.bad('point', at + 'the indices do not select one point')
                if rep.viol:
                    return rep
            try:
                api.post.find_nearest_coords(coords=tuple(r[0] for r in rq), x=list(ax), data_space_dim=shape[:-1] + (shape[-1] + 1,))
            except Exception:  # noqa
                continue
            rep.bad('refuse', 'grid of shape %r accepted for data of another shape' % (shape,))
            return rep
    return rep


# ---------------------------------------------------------------- data
def t_data(ctx):
    '''snapshots by their numbers, and stored arrays by their file.'''
    rep = Rep()
    with quiet(), ctx.tmp() as d:
        for shape, nv, axis, cls in itertools.product(((3,), (1,), (3, 2), (2, 1, 2)), (1, 2), (True, False), ('Standard', 'Streaming', 'POD')):
            if nv > 1 and not axis:
                continue
            x = gen.field(ctx.seed, 9, shape, nv)
            x = x if axis else x[..., 0]
            sd = '%s/%d_%d_%d_%s' % (d, len(shape), shape[0], nv, cls) + str(axis)
            if cls == 'POD':
                s = api.POD(params={'time_step': 0.5, 'n_space_dims': len(shape), 'n_variables': nv, 'savedir': sd, 'n_modes_save': 2})
                s.fit([x])
            else:
                s = api.fit([x], api.params(n_dft=4, dt=0.5, xdim=len(shape), nv=nv, savedir=sd), None, getattr(api, cls))
            full = x if axis else x[..., None]
            for a, b in itertools.product([None] + list(range(10)), repeat=2):
                at = '%s, shape %r, %d variables%s, snapshots %r to %r: ' % (cls, shape, nv, '' if axis else ' without axis', a, b)
                rep.case(at, cls=cls, shape=shape, variables=nv, axis=axis, t_0=a, t_end=b)
                kw = {k: v for k, v in (('t_0', a), ('t_end', b)) if v is not None}
                for g in (s.get_data(x, **kw), s.get_data(x, a, b)):
                    e = full[slice(a, b)]
                    if np.shape(g) != e.shape or not np.array_equal(g, e):
                        rep.bad('data', at + 'not the snapshots asked for (shape %r instead of %r)' % (np.shape(g), e.shape))
                        return rep
        for dt in ('f4', 'f8', 'c8', 'c16', 'i4', '>f8'):
            for sh, order in itertools.product(((), (0, 3), (4,), (3, 2), (2, 3, 2)), 'CF'):
                for ext in ('.npy', '.NPY'):
                    a = np.asarray(np.arange(np.prod(sh)).reshape(sh) * (1.5 - (2j if dt.startswith('c') else 0)), order=order).astype(dt, order=order)
                    f = d + '/a.b' + ext
                    with open(f, 'wb') as h:
                        np.save(h, a)
                    rep.case('file/%s/%r/%s/%s' % (dt, sh, order, ext), dtype=dt, shape=sh, order=order, name='a.b' + ext)
                    at = 'file a.b%s with %s%r in %s order: ' % (ext, dt, sh, order)
                    if a.size:
                        g = api.post.get_data_from_file(f)
                        if g.dtype != a.dtype or g.shape != a.shape or not np.array_equal(g, a):
                            rep.bad('file', at + 'the array read is not the one stored')
                            return rep
                        g[...] = 7
                        del g
                        if not np.array_equal(np.load(f), a):
                            rep.bad('written', at + 'changing the array read changes the file')
                            return rep
        for ext in ('.mat', '.nc', '.txt', '', '.npy.txt'):
            f = d + '/c' + ext
            with open(f, 'wb') as h:
                np.save(h, np.arange(3.))
            rep.case('ext/' + ext)
            try:
                api.post.get_data_from_file(f)
            except Exception:  # noqa
                continue
            rep.bad('extension', 'file c%s read as an array file' % ext)
    return rep


# ---------------------------------------------------------------- stored modes
# shape, variables, n_dft, blocks, options
RUNS = [((3, 2), 2, 24, 12, {}), ((14,), 1, 4, 13, {}), ((2, 2), 1, 6, 11, {'n_modes_save': 2, 'fullspectrum': True}), ((5,), 1, 7, 3, {'n_modes_save': 1}),
        ((2,), 1, 220, 2, {})]
NAMES = ['plain', 'with space', 'a[1]b', 'st*r?', '{x}.npy']


def program(comm, x, p, kw):
    s = api.fit([x] if not isinstance(x, list) else x, p, None, api.Standard, comm, **kw)
    return s.savedir_sim, np.array(s.eigs), [np.array(s.get_modes_at_freq(f)) for f in range(s.n_freq)]


def t_modes(ctx, k, n):
    rep = Rep()
    shape, nv, nd, nb, o = RUNS[k]
    x = gen.field(ctx.seed, nd * nb, shape, nv)
    cwd = os.getcwd()
    import xarray as xr
    with quiet(), ctx.tmp() as top:
        def P(d, **kw):
            return api.params(n_dft=nd, dt=0.5, xdim=len(shape), nv=nv, savedir=d, **dict(o, **kw))
        exp = program(None, x, P(top + '/ref'), {})
        lam = exp[1].real
        for per_mode in ((False, True) if n else (False,)):
            d = top + '/p%d' % per_mode
            if not n:
                got = [program(None, x, P(d), {})]
            elif per_mode:
                vs = ['u', 'v'][:nv]
                f = top + '/in.nc'
                xr.Dataset({v: (('time',) + tuple('zyx'[:len(shape)]), x[..., j]) for j, v in enumerate(vs)}).to_netcdf(f)
                r = spmd.launch(n, program, ([f], P(d, savefreq_disk=False, savefreq_disk2=True), {'variables': vs}), root=d)
            else:
                r = spmd.launch(n, program, (x, P(d), {}), root=d)
            if n:
                if not r.ok():
                    rep.bad('run', '%r on %d ranks: %s' % (RUNS[k], n, r.describe()))
                    return rep
                got = r.values
            for q, name in enumerate(NAMES):
                rep.case('modes/%d/%d/%d/%s' % (k, n, per_mode, name), run=RUNS[k], ranks=n, per_mode=per_mode, folder=name)
                at = '%r on %s ranks, %s, folder %r: ' % (RUNS[k], n or 'no', 'one file per mode' if per_mode else 'one file per frequency', name)
                e = os.path.join(top, name + str(per_mode))
                shutil.copytree(got[0][0], e)
                arg = e
                if q % 2:
                    os.chdir(top)
                    arg = name + str(per_mode) + os.sep * (q % 3)
                try:
                    read = [np.array(api.post.get_modes_at_freq(arg, f)) for f in range(len(lam))]
                    al = np.array(api.post.get_all_modes(arg))
                    if os.getcwd() != (top if q % 2 else cwd):
                        rep.bad('cwd', at + 'the working directory changed')
                finally:
                    os.chdir(cwd)
                if len(al) != len(lam) or any(not np.array_equal(a, b, equal_nan=True) for a, b in zip(al, read)):
                    rep.bad('all', at + 'get_all_modes and get_modes_at_freq disagree')
                for f in range(len(lam)):
                    m = exp[2][f]
                    if read[f].shape != m.shape:
                        rep.bad('shape', at + 'frequency %d: shape %r instead of %r' % (f, read[f].shape, m.shape))
                        return rep
                    for g in got:
                        if not np.array_equal(g[2][f], read[f], equal_nan=True):
                            rep.bad('object', at + 'frequency %d: the object returns other modes than the folder' % f)
                    for j in range(m.shape[-1]):
                        if not ref.separated(lam[f], j):
                            continue
                        dist = ref.mode_distance(m[..., j], read[f][..., j])
                        gap = min([abs(lam[f][j] - v) for i, v in enumerate(lam[f]) if i != j])
                        if not dist <= 1e-7 * max(1, lam[f][0] / gap, (lam[f][0] / lam[f][j]) ** .5):
                            rep.bad('modes', at + 'frequency %d, mode %d is not the one of the fit (%.3g)' % (f, j, dist))
                if rep.viol:
                    return rep
    return rep
