'''C06: the readers deliver exactly the stored snapshots.'''
import itertools
import os
import numpy as np

from mc import api, gen, spmd
from mc.core import Rep, quiet

PROP = 'C06'
LEVEL = 'model_checking'
RULE = ('every combination of reader (netCDF two-stage, MATLAB, in-memory) x files (splits of the series, shapes, '
        'variables, element types, every split of a short series, with and without time coordinates) x ranks x number of reading ranks x blocks x '
        'message path; per combination the whole series, every single snapshot and every time range is read and each '
        'value compared with what was stored')
ASSUMPTIONS = ['MPI is simulated (mc/fake/mpi4py, mc/sim.py); conformance with the installed Open MPI is checked by C02',
               'messages beyond the 32-bit limit are replaced by lowering the limit the code asks NumPy for']

# splits, spatial shape, number of variables, stored type, time coordinate
NC = [([11], (3, 2), 1, 'f8', 'regular'), ([4, 5], (3, 2), 1, 'f8', 'regular'), ([1, 9, 2], (5,), 2, 'f8', 'regular'),
      ([3, 3, 4], (2, 2, 3), 1, 'f4', 'regular'), ([6, 4], (1,), 3, 'f8', 'regular'), ([9], (2, 3), 2, 'i4', 'regular'),
      ([5, 5], (4,), 1, 'f8', 'none'), ([5, 6], (2, 2), 1, 'f8', 'repeated'), ([7, 3], (3,), 2, 'f8', 'descending'),
      ([10, 10], (7, 3), 2, 'f8', 'restarting'), ([2] * 6, (2, 3), 1, 'f8', 'regular'),
      ([6, 5], (2, 3), 2, 'packed', 'dates'), ([4, 7], (5,), 1, 'classic', 'dates'), ([9, 2], (3,), 2, 'f4', 'other')]
MAT = [(11, (2, 3, 2), 2, 'f8'), (3, (1, 1, 3), 1, 'f4'), (1, (2, 1, 2), 2, 'f8'), (7, (3, 1, 1), 3, 'i4'), (4, (2, 2, 2), 1, 'f8')]
MEM = [([8], (3, 2), 1, True), ([3, 5], (3, 2), 1, False), ([1, 4, 3], (5,), 2, True), ([5, 2], (2, 2, 3), 3, True),
       ([4, 1], (1,), 4, True), ([2, 2, 2, 2], (2, 5), 1, True), ([6], (7,), 1, False)]


def envs(n):
    e = [{}, {'p2p_send': 'eager', 'p2p_deliver': 'early', 'anysrc': 'high'}, {'int32_max': 6}, {'mpi_version': 4}]
    return e if n < 5 else e[1:3]


def plan(tier, seed):
    items = []
    ns = (1, 2, 3, 5) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 7, 8)
    for n in ns:
        for k in range(len(envs(n))):
            items += [('t_nc', [i, n, k]) for i in range(len(NC))]
            items += [('t_mat', [i, n, k]) for i in range(len(MAT))]
    items.insert(0, ('t_big', [1 if tier == 'quick' else 2]))
    for n in (0,) + ns:
        items += [('t_mem', [i, n]) for i in range(len(MEM))]
    items += [('t_memsplits', [a, n]) for a in (0, 1) for n in (0, 2, 3)]
    items += [('t_ncsplits', [n, k]) for n in (2, 3) for k in range(4)]
    return items


def compositions(nt, most=99):
    out = [[nt]]
    for c in range(1, nt):
        for r in itertools.combinations(range(1, nt), c):
            if c < most:
                out.append([b - a for a, b in zip((0,) + r, r + (nt,))])
    return out


def ranges(nt, full):
    r = [(a, b) for a in range(nt) for b in range(a + 1, nt + 1)]
    return r if full else [(a, b) for a, b in r if b - a == 1 or (a * 7 + b * 3) % 5 == 0]


def p_file(comm, kind, files, shape, nv, vs, dtype, opts, full):
    out = []
    for o in opts:
        o, c = {k: v for k, v in o.items() if k != 'chunks'}, o
        if kind == 'nc':
            r = api.reader.reader_2stage(list(files), len(shape), dtype, comm, nv, list(vs), **o)
        else:
            r = api.reader.reader_mat(list(files), len(shape), dtype, comm, nv)
        if 'chunks' in c:       # as for a series of more than 256 MB for each reader
            r._nchunks = c['chunks']
        res = {'attrs': (int(r.nt), tuple(int(i) for i in r.xshape), int(r.nx), int(r.xdim), int(r.dim),
                         tuple(int(i) for i in r.shape), bool(r.is_real))}
        a = r.get_data()
        res['blocks'] = [(int(a[k]['s']), int(a[k]['e']), np.array(a[k]['v'])) for k in a]
        res['single'] = [np.array(r.get_data(t)) for t in range(r.nt)]
        if c == opts[0]:
            res['range'] = [np.array(r.get_data_for_time(s, e)) for s, e in ranges(r.nt, full)]
        out.append(res)
    return out


def whole(parts):
    return np.concatenate(parts, axis=1)


def compare(rep, at, got, x, nranks, full):
    '''x: (nt, points, nv) expected.'''
    nt = x.shape[0]

    def chk(what, parts, s, e):
        for p in parts:
            if p.ndim != 3 or p.shape[0] != e - s or p.shape[2] != x.shape[2]:
                rep.bad('shape', at + '%s: shape %r' % (what, p.shape))
                return
            if p.dtype != x.dtype:
                rep.bad('dtype', at + '%s: type %s instead of %s' % (what, p.dtype, x.dtype))
                return
        w = whole(parts)
        if w.shape != x[s:e].shape or not np.array_equal(w, x[s:e]):
            b = ''
            if w.shape == x[s:e].shape:
                b = ' (first wrong entry: time, point, variable %r)' % (tuple(int(i) for i in np.argwhere(w != x[s:e])[0]),)
            rep.bad('values', at + '%s: other values than stored%s' % (what, b))
    sizes = [g['single'][0].shape[1] for g in got]
    if max(sizes) - min(sizes) > 1 or sizes != sorted(sizes, reverse=True):
        rep.bad('balance', at + 'points per rank %r' % (sizes,))
    bl = [[(s, e) for s, e, _ in g['blocks']] for g in got]
    if any(b != bl[0] for b in bl):
        rep.bad('blocks', at + 'blocks differ between ranks')
        return
    c = sorted((s, e) for s, e in bl[0] if e > s)
    if [s for s, _ in c] != [0] + [e for _, e in c][:-1] or c[-1][1] != nt:
        rep.bad('blocks', at + 'the blocks %r do not cover 0..%d once and in order' % (bl[0], nt))
        return
    for k, (s, e) in enumerate(bl[0]):
        chk('block %d (%d to %d)' % (k, s, e), [g['blocks'][k][2] for g in got], s, e)
    for t in range(nt):
        chk('snapshot %d' % t, [g['single'][t] for g in got], t, t + 1)
        if rep.viol:
            return
    for k, (s, e) in enumerate(ranges(nt, full) if 'range' in got[0] else []):
        chk('range %d to %d' % (s, e), [g['range'][k] for g in got], s, e)
        if rep.viol:
            return


def run_file(ctx, rep, kind, files, shape, nv, vs, x, n, k, at, opts):
    env = envs(n)[k]
    full = ctx.tier != "quick" or n < 3
    for dtype in (np.float64, np.float32):
        if dtype == np.float32 and k > 0:
            continue
        with ctx.tmp('r') as d:
            r = spmd.launch(n, p_file, (kind, files, shape, nv, vs, dtype, opts, full), env=env, root=d)
        rep.transitions += r.mpi_ops + len(r.events)
        rep.states += r.mpi_ops + 1
        at2 = at + '%s, %d ranks, MPI behaviour %r: ' % (np.dtype(dtype), n, env)
        if not r.ok():
            rep.bad('run', at2 + r.describe())
            return
        e = x.reshape(x.shape[0], -1, nv).astype(dtype)
        for j, o in enumerate(opts):
            rep.case('%s%r%d%s' % (at2, o, k, dtype), source=at, ranks=n, options=o)
            got = [v[j] for v in r.values]
            exp = (x.shape[0], tuple(shape), int(np.prod(shape)), len(shape), len(shape) + 2, (x.shape[0],) + tuple(shape) + (nv,), True)
            for g in got:
                if g['attrs'] != exp:
                    rep.bad('attrs', at2 + 'attributes %r instead of %r' % (g['attrs'], exp))
                    return
            compare(rep, at2 + 'options %r: ' % o, got, e, n, full)
            if rep.viol:
                return


def ncfiles(d, cfg, seed):
    import xarray as xr
    splits, shape, nv, st, tc = cfg
    nt = sum(splits)
    x = gen.field(seed, nt, shape, nv, 'real', True)
    if st == 'packed':
        x = np.round(x * 100) / 100 + 250
    elif st == 'classic':
        x = x.astype('f4')
    else:
        x = np.round(x * 10).astype(st) if st[0] == 'i' else x.astype(st)
    vs = ['p', 'u', 'aa'][:nv]
    dims = ('valid_t' if tc == 'other' else 'time',) + tuple('zyx'[:len(shape)])
    files, t = [], 0
    for i, m in enumerate(splits):
        tt = np.arange(t, t + m) * 0.5
        if tc == 'repeated':
            tt = tt - tt % 1.5
        elif tc == 'descending':
            tt = tt[::-1]
        elif tc == 'restarting':
            tt = np.arange(m) * 1.0
        elif tc == 'dates':
            tt = np.datetime64('2001-02-03T00') + (np.arange(t, t + m) * 6).astype('timedelta64[h]')
        ds = xr.Dataset({v: (dims, x[t:t + m, ..., j]) for j, v in list(enumerate(vs))[::-1]},
                        coords={} if tc == 'none' else {dims[0]: tt})
        # the order of the list counts, not that of the names
        p = os.path.join(d, '%s%d.nc' % ('zyxwvu'[i % 6], i))
        if st == 'packed':
            ds.to_netcdf(p, encoding={v: {'dtype': 'i2', 'scale_factor': .01, 'add_offset': 250., '_FillValue': -32768} for v in vs})
            with xr.open_dataset(p) as g:
                for j, v in enumerate(vs):
                    y = g[v].values.reshape(x[t:t + m, ..., j].shape)
                    assert np.abs(y - x[t:t + m, ..., j]).max() < 1e-4
                    x[t:t + m, ..., j] = y
        elif st == 'classic':
            ds.to_netcdf(p, format='NETCDF3_CLASSIC')
        else:
            ds.to_netcdf(p)
        files.append(p)
        t += m
    return files, vs, x.astype('f8') if st[0] == 'i' else x


def t_nc(ctx, i, n, k):
    rep = Rep()
    with quiet(), ctx.tmp() as d:
        files, vs, x = ncfiles(d, NC[i], ctx.seed)
        opts = [{'nchunks': 1, 'nblocks': 3}, {'chunks': 2}, {'chunks': 3, 'nblocks': 2}, {'nchunks': 1, 'nblocks': 1, 'nreaders': 1}, {'nchunks': 2, 'nblocks': 4, 'nreaders': 2},
                {'nreaders': 3, 'nblocks': 2}, {'nreaders': n + 2, 'nchunks': 1, 'nblocks': 5}]
        run_file(ctx, rep, 'nc', files, NC[i][1], NC[i][2], vs, x, n, k, 'netCDF files %r: ' % (NC[i],), opts)
    return rep


def t_mat(ctx, i, n, k):
    import h5py
    rep = Rep()
    nt, shape, nv, st = MAT[i]
    x = gen.field(ctx.seed, nt, shape, nv, 'real', True)
    x = np.round(x * 10).astype(st) if st[0] == 'i' else x.astype(st)
    with quiet(), ctx.tmp() as d:
        files = []
        for t in range(nt):
            p = os.path.join(d, 'm%03d.mat' % t)
            with h5py.File(p, 'w') as f:
                f['q'] = np.moveaxis(x[t], -1, 0)
            files.append(p)
        run_file(ctx, rep, 'mat', files, shape, nv, [], x.astype('f8') if st[0] == 'i' else x, n, k,
                 'MATLAB files %r: ' % (MAT[i],), [{}, {'chunks': 2}, {'chunks': 3}])
    return rep


def p_big(comm, files, m):
    r = api.reader.reader_2stage(list(files), 2, np.float64, comm, 1, ['p'])
    a = r.get_data()
    out = [(int(a[k]['s']), int(a[k]['e'])) for k in a]
    for k in sorted(a):
        s, e, v = int(a[k]['s']), int(a[k]['e']), a[k].pop('v')
        n = v.shape[1]
        lo = sum(comm.allgather(n)[:comm.rank])
        if v.shape[2] != 1 or v.shape[0] != e - s:
            return 'block %d has shape %r for %d to %d' % (k, v.shape, s, e)
        for t in range(s, e):
            if not np.array_equal(v[t - s, :, 0], big(t, m).ravel()[lo:lo + n]):
                return 'snapshot %d in block %d on rank %d: other values than stored' % (t, k, comm.rank)
        del v
    return out


def big(t, m):
    i = np.arange(m * m).reshape(m, m)
    return ((i % 89 + i // 97 + t * 5) % 113).astype('i1')


def t_big(ctx, n):
    '''a series so large that it is read in several chunks.'''
    import xarray as xr
    rep = Rep()
    m, nt = 2900 if n == 1 else 4100, 9
    with quiet(), ctx.tmp() as d:
        files = []
        for s, e in ((0, 4), (4, nt)):
            files.append('%s/b%d.nc' % (d, s))
            xr.Dataset({'p': (('time', 'y', 'x'), np.stack([big(t, m) for t in range(s, e)]))},
                       coords={'time': np.arange(s, e) * 1.}).to_netcdf(files[-1])
        r = spmd.launch(n, p_big, (files, m), root=d)
        rep.case('big%d' % n, ranks=n, points=m * m)
        rep.transitions += r.mpi_ops + len(r.events)
        rep.states += r.mpi_ops + 1
        at = 'series of %d snapshots of %d points on %d ranks: ' % (nt, m * m, n)
        if not r.ok():
            rep.bad('run', at + r.describe())
            return rep
        for v in r.values:
            if isinstance(v, str):
                rep.bad('values', at + v)
                return rep
            c = sorted(b for b in v if b[1] > b[0])
            if [s for s, _ in c] != [0] + [e for _, e in c][:-1] or c[-1][1] != nt:
                rep.bad('blocks', at + 'the blocks %r do not cover the series once' % (v,))
                return rep
        rep.add('chunked_blocks', len(r.values[0]))
    return rep


def p_mem(comm, pieces, xdim, nv, dtype, full):
    r = api.reader.reader_1stage(pieces, xdim, dtype, comm, nv)
    nt = int(r.nt)
    return {'attrs': (nt, tuple(r.xshape), int(r.nx), int(r.xdim), tuple(r.shape), bool(r.is_real)), 'axis': int(r.max_axis),
            'all': np.array(r.get_data()), 'single': [np.array(r.get_data(t)) for t in range(nt)],
            'range': [np.array(r.get_data_for_time(s, e)) for s, e in ranges(nt, full)]}


def t_mem(ctx, i, n):
    import xarray as xr
    rep = Rep()
    splits, shape, nv, axis = MEM[i]
    nt = sum(splits)
    with quiet(), ctx.tmp() as d:
        for kind, wrap, dtype in itertools.product(('real', 'complex'), ('numpy', 'xarray', 'fortran'), (np.float64, np.float32)):
            x = gen.field(ctx.seed, nt, shape, nv, kind, axis)
            pieces = np.split(x, np.cumsum(splits)[:-1])
            if wrap == 'xarray':
                pieces = [xr.DataArray(p) for p in pieces]
            elif wrap == 'fortran':
                pieces = [np.asfortranarray(p) for p in pieces]
            at = 'in memory %r, %s %s, %s, %s ranks: ' % (MEM[i], kind, wrap, np.dtype(dtype), n or 'no')
            rep.case(at, nontrivial=n > 1 or len(splits) > 1)
            if n == 0:
                vs = [p_mem(None, pieces, len(shape), nv, dtype, True)]
            else:
                r = spmd.launch(n, p_mem, (pieces, len(shape), nv, dtype, True), env=spmd.ENVS[n % 2], root=d)
                rep.transitions += r.mpi_ops
                rep.states += r.mpi_ops + 1
                if not r.ok():
                    rep.bad('run', at + r.describe())
                    return rep
                vs = r.values
            e = x.reshape((nt,) + shape + (nv,))
            e = e.astype(np.result_type(dtype, np.complex64) if kind == 'complex' else dtype)
            ax = vs[0]['axis']
            for v in vs:
                if v['attrs'] != (nt, shape, int(np.prod(shape)), len(shape), (1,) + shape + (nv,), kind == 'real') or \
                        v['axis'] != ax or shape[ax] != max(shape):
                    rep.bad('attrs', at + 'attributes %r, axis %r' % (v['attrs'], v['axis']))
                    return rep

            def chk(what, parts, s, t):
                g = np.concatenate(parts, axis=ax + 1)
                if g.shape != e[s:t].shape or not np.array_equal(g, e[s:t]):
                    rep.bad('values', at + '%s: other values or shape than stored' % what)
                elif any(p.dtype != e.dtype for p in parts):
                    rep.bad('dtype', at + '%s: type %s instead of %s' % (what, parts[0].dtype, e.dtype))
            chk('all', [v['all'] for v in vs], 0, nt)
            for t in range(nt):
                chk('snapshot %d' % t, [v['single'][t] for v in vs], t, t + 1)
            for k, (s, t) in enumerate(ranges(nt, True)):
                chk('range %d to %d' % (s, t), [v['range'][k] for v in vs], s, t)
            if rep.viol:
                return rep
    return rep


def p_memsplits(comm, arrays, shape, nv):
    out = []
    for pieces in arrays:
        r = api.reader.reader_1stage(pieces, len(shape), np.float64, comm, nv)
        out.append((int(r.nt), int(r.max_axis), [np.array(r.get_data_for_time(s, e)) for s, e in ranges(int(r.nt), True)]))
    return out


def t_memsplits(ctx, axis, n):
    """every way to cut a series into a list of arrays."""
    rep = Rep()
    nt, shape = 6, (2, 3)
    nv = 2 if axis == 1 and n == 2 else 1
    x = gen.field(ctx.seed, nt, shape, nv, 'real', bool(axis))
    e = x.reshape((nt,) + shape + (nv,))
    cs = compositions(nt)
    arrays = [np.split(x, np.cumsum(c)[:-1]) for c in cs]
    with quiet(), ctx.tmp() as d:
        if n:
            r = spmd.launch(n, p_memsplits, (arrays, shape, nv), root=d)
            rep.transitions += r.mpi_ops
            rep.states += r.mpi_ops + 1
            if not r.ok():
                rep.bad('run', 'lists of arrays on %d ranks: %s' % (n, r.describe()))
                return rep
            vs = r.values
        else:
            vs = [p_memsplits(None, arrays, shape, nv)]
    for i, c in enumerate(cs):
        at = 'series given as arrays of %r snapshots, variable axis %d, %d ranks: ' % (c, axis, n)
        rep.case(at)
        if any(v[i][0] != nt for v in vs):
            rep.bad('attrs', at + '%r snapshots' % [v[i][0] for v in vs])
            return rep
        for k, (s, t) in enumerate(ranges(nt, True)):
            g = np.concatenate([v[i][2][k] for v in vs], axis=vs[0][i][1] + 1)
            if g.shape != e[s:t].shape or not np.array_equal(g, e[s:t]):
                rep.bad('values', at + 'range %d to %d: other values or shape than given' % (s, t))
                return rep
    return rep


def t_ncsplits(ctx, n, k):
    """every way to cut a series into up to three files."""
    rep = Rep()
    cs = compositions(9, 3)[k::4]
    with quiet():
        for c in cs:
            with ctx.tmp('f') as d:
                cfg = (c, (2, 2), 1 + (n == 3), 'f8', 'regular')
                files, vs, x = ncfiles(d, cfg, ctx.seed)
                with ctx.tmp('r') as root:
                    r = spmd.launch(n, p_file, ('nc', files, (2, 2), cfg[2], vs, np.float64, [{'chunks': 1 + sum(c[:1]) % 2}], True), root=root)
                rep.transitions += r.mpi_ops + len(r.events)
                rep.states += r.mpi_ops + 1
                at = 'netCDF files of %r snapshots, %d ranks: ' % (c, n)
                rep.case(at)
                if not r.ok():
                    rep.bad('run', at + r.describe())
                    return rep
                compare(rep, at, [v[0] for v in r.values], x.reshape(9, -1, cfg[2]), n, True)
                if rep.viol:
                    return rep
    return rep
