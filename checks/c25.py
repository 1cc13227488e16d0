'''C25: a read or write error is reported, never turned into a result on partial data.'''
import hashlib
import os
import shutil
import numpy as np
import xarray as xr
from xarray.backends import BackendArray
from xarray.core import indexing

from mc import api, cmp, gen, spmd
from mc.core import Rep, quiet
from mc.sim import MUTATING

PROP = 'C25'
LEVEL = 'fault_enumeration'
RULE = ('the fault-free run is executed first and its read (write) accesses are counted; then the run is repeated once per '
        'access, rank and kind of exception with that access failing: the rank with the fault must raise, nothing may be '
        'stored as a result, and what an earlier fit stored in that folder must be left alone by a failed read; '
        'every input or result file missing, emptied or cut at header and data boundaries must give an error or the '
        'result of the intact file')
ASSUMPTIONS = ['one fault per run', 'in parallel only the rank with the fault must raise; the others may wait for it (MPI is simulated)']
EXC = [OSError, IndexError, ValueError, KeyError, StopIteration, RuntimeError, EOFError]


class Plan:
    def __init__(self, at=None, exc=OSError):
        self.n, self.at, self.exc, self.hot = 0, at, exc, False

    def hit(self):
        if not self.hot:
            return
        k, self.n = self.n, self.n + 1
        if k == self.at:
            raise self.exc('injected read error')


class Lazy:
    '''Array whose elements are read on access.'''

    def __init__(self, a, plan):
        self._a, self._plan = a, plan
        self.shape, self.dtype, self.ndim, self.size = a.shape, a.dtype, a.ndim, a.size

    def __len__(self):
        return len(self._a)

    def __getitem__(self, k):
        self._plan.hit()
        return self._a[k]

    def __array__(self, dtype=None, copy=None):
        self._plan.hit()
        return self._a if dtype is None else self._a.astype(dtype)


class Backend(BackendArray):
    def __init__(self, a, plan):
        self._a, self._plan, self.shape, self.dtype = a, plan, a.shape, a.dtype

    def __getitem__(self, key):
        return indexing.explicit_indexing_adapter(key, self.shape, indexing.IndexingSupport.OUTER, self._get)

    def _get(self, key):
        self._plan.hit()
        for ax, k in enumerate(key):
            if not isinstance(k, (slice, int, np.integer)):
                a = np.take(self._a, k, axis=ax)
                return a[tuple(q if i != ax else slice(None) for i, q in enumerate(key))]
        return self._a[key]


def lazy(a, plan, form):
    if form == 'array':
        return Lazy(a, plan)
    v = xr.Variable(['t'] + ['x%d' % i for i in range(a.ndim - 1)], indexing.LazilyIndexedArray(Backend(a, plan)))
    return xr.DataArray(v)


# class, shape, variables, kind, splits of the series, options
CASES = [('batch', (3,), 1, 'real', [4, 5], {}), ('batch', (2, 2), 2, 'real', [9], {'savefft': True}),
         ('batch', (3,), 1, 'complex', [3, 3, 3], {'normalize_weights': True}), ('stream', (3,), 1, 'real', [4, 5], {}),
         ('stream', (2, 2), 2, 'real', [9], {'overlap': 50}), ('stream', (2,), 1, 'complex', [8, 1], {}),
         ('pod', (3,), 1, 'real', [4, 5], {}), ('pod', (2, 2), 2, 'real', [2, 7], {'normalize_weights': True})]
NT = 9


def plan(tier, seed):
    it = []
    for c in range(len(CASES)):
        for form in ('array', 'labelled'):
            it.append(('t_lazy', [c, form]))
        it += [('t_ranks', [c, n]) for n in ((2,) if tier == 'quick' else (2, 3))]
    for k in range(len(FILES)):
        it += [('t_files', [k, n]) for n in ((1, 2) if tier == 'quick' else (1, 2, 3))]
        it.append(('t_cut', [k]))
    for k in range(len(PROGS)):
        it += [('t_write', [k, n]) for n in ((0, 2) if tier == 'quick' else (0, 1, 2, 3))]
    for k in range(len(USES)):
        it += [('t_stored', [k, n]) for n in (0, 2)]
    return it


def cls(name):
    return {'batch': api.Standard, 'stream': api.Streaming, 'pod': api.POD}[name]


def prm(name, shape, nv, d, o):
    p = dict(o, time_step=0.5, n_space_dims=len(shape), n_variables=nv, savedir=d)
    if name != 'pod':
        p['n_dft'] = 4
    return p


def digest(d, skip=()):
    out = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            q = os.path.relpath(os.path.join(r, f), d)
            if not any(s in q for s in skip):
                with open(os.path.join(r, f), 'rb') as h:
                    out[q] = hashlib.sha1(h.read()).hexdigest()
    return out


def results(d):
    '''the files that say what the result is.'''
    return sorted(q for q in digest(d) if os.path.basename(q) in ('eigs_freq.npz', 'eigs.npz'))


def run(comm, name, a, splits, form, p, w, at, exc, who):
    pl = Plan(at, exc)
    pl.hot = comm is None or comm.rank == who or who is None
    parts = [lazy(b, pl, form) for b in np.split(a, np.cumsum(splits)[:-1])]
    s = cls(name)(params=p, weights=w, comm=comm)
    s.fit(parts)
    return pl.n, np.array(s.eigs)


def t_lazy(ctx, ci, form):
    rep = Rep()
    name, shape, nv, kind, splits, o = CASES[ci]
    a = gen.field(ctx.seed, NT, shape, nv, kind)
    w = gen.wdict(gen.weights(ctx.seed, shape, nv))
    with ctx.tmp() as top, quiet():
        s = cls(name)(params=prm(name, shape, nv, top + '/ref', o), weights=w)
        s.fit(list(np.split(a, np.cumsum(splits)[:-1])))
        n, eigs = run(None, name, a, splits, form, prm(name, shape, nv, top + '/full', o), w, None, OSError, None)
        if not cmp.close(eigs, s.eigs, 1e-10):
            rep.bad('lazy', '%r, data read on access (%s): eigenvalues: %s' % (CASES[ci], form, cmp.err(eigs, s.eigs)))
        before = digest(top + '/full')
        rep.add('accesses', n)
        for exc in EXC:
            for k in range(n):
                for over in (False, True):
                    if over and exc not in (OSError, IndexError):
                        continue
                    rep.case('lazy/%d/%s/%s/%d/%d' % (ci, form, exc.__name__, k, over), case=CASES[ci], access=k)
                    rep.states += 1
                    d = top + ('/full' if over else '/new')
                    shutil.rmtree(top + '/new', ignore_errors=True)
                    at = '%r, read access %d of %d (%s) raises %s: ' % (CASES[ci], k + 1, n, form, exc.__name__)
                    try:
                        run(None, name, a, splits, form, prm(name, shape, nv, d, o), w, k, exc, None)
                    except Exception:  # noqa: any error is a report
                        pass
                    else:
                        rep.bad('silent', at + 'the fit returned a result')
                        return rep
                    if over and digest(d, ('blocks',)) != {q: h for q, h in before.items() if 'blocks' not in q}:
                        rep.bad('damaged', at + 'the results of the earlier fit in the folder changed')
                        return rep
                    if not over and results(d):
                        rep.bad('stored', at + 'results were stored')
                        return rep
    return rep


def t_ranks(ctx, ci, n):
    '''one rank of several fails.'''
    rep = Rep()
    name, shape, nv, kind, splits, o = CASES[ci]
    a = gen.field(ctx.seed, NT, shape, nv, kind)
    w = gen.wdict(gen.weights(ctx.seed, shape, nv))
    with ctx.tmp() as top, quiet():
        r = spmd.launch(n, run, (name, a, splits, 'array', prm(name, shape, nv, top + '/full', o), w, None, OSError, None), root=top)
        if not r.ok():
            rep.bad('run', '%r on %d ranks: %s' % (CASES[ci], n, r.describe()))
            return rep
        for who in range(n):
            m = r.values[who][0]
            ks = range(m) if ctx.tier != 'quick' or m < 12 else sorted({0, 1, 2, m // 2, m - 3, m - 2, m - 1})
            for k in ks:
                for exc in (OSError, IndexError):
                    rep.case('rank/%d/%d/%d/%d/%s' % (ci, n, who, k, exc.__name__), case=CASES[ci], rank=who, access=k)
                    rep.states += 1
                    d = top + '/new'
                    shutil.rmtree(d, ignore_errors=True)
                    q = spmd.launch(n, run, (name, a, splits, 'array', prm(name, shape, nv, d, o), w, k, exc, who), root=top)
                    at = '%r, read access %d of %d raises %s on rank %d of %d: ' % (CASES[ci], k + 1, m, exc.__name__, who, n)
                    if judge(rep, at, q, who, d):
                        return rep
    return rep


def judge(rep, at, q, who, d):
    '''the rank with the fault must raise, nobody may have a result.'''
    rep.transitions += q.mpi_ops
    if q.status == 'hang':
        rep.bad('hang', at + q.describe())
    elif not q.out[who] or q.out[who][0] != 'exc':
        rep.bad('silent', at + 'the rank did not report it: %s' % q.describe())
    elif any(o and o[0] == 'done' for o in q.out):
        rep.bad('silent', at + 'another rank returned a result')
    elif d and results(d):
        rep.bad('stored', at + 'results were stored')
    return bool(rep.viol)


# ---------------------------------------------------------------- files
FILES = [('nc', [5, 4], (3, 2), 1, {}), ('nc', [3, 4, 2], (4,), 2, {'savefreq_disk2': False}), ('mat', [9], (2, 2, 1), 2, {})]


def make_files(d, k, seed):
    kind, splits, shape, nv, o = FILES[k]
    x = gen.field(seed, sum(splits), shape, nv)
    os.makedirs(d)
    out, t = [], 0
    if kind == 'nc':
        vs = ['u', 'p'][:nv]
        for i, m in enumerate(splits):
            f = '%s/in%d.nc' % (d, i)
            xr.Dataset({v: (('time',) + tuple('zyx'[:len(shape)]), x[t:t + m, ..., j]) for j, v in enumerate(vs)}).to_netcdf(f)
            out.append(f)
            t += m
        return x, out, {'variables': vs}
    import h5py
    for t in range(len(x)):
        f = '%s/m%03d.mat' % (d, t)
        with h5py.File(f, 'w') as h:
            h['q'] = np.moveaxis(x[t], -1, 0)
        out.append(f)
    return x, out, {}


def instrument(pl):
    '''count (and let fail) what the libraries below the readers are asked for.'''
    import h5py
    import netCDF4
    from h5py._hl import dataset as hd
    from xarray.backends import netCDF4_ as xn

    class F(h5py.File):
        def __init__(self, *a, **k):
            pl.hit()
            super().__init__(*a, **k)
    h5py.File = F

    class D(netCDF4.Dataset):
        def __init__(self, *a, **k):
            pl.hit()
            super().__init__(*a, **k)
    netCDF4.Dataset = D
    ng = xn.NetCDF4ArrayWrapper._getitem

    def g(self, key):
        pl.hit()
        return ng(self, key)
    xn.NetCDF4ArrayWrapper._getitem = g
    for nm in ('__getitem__', '__array__'):
        def wrap(real):
            def f(self, *a, **k):
                pl.hit()
                return real(self, *a, **k)
            return f
        setattr(hd.Dataset, nm, wrap(getattr(hd.Dataset, nm)))


def run_files(comm, files, p, kw, at, exc, who):
    pl = Plan(at, exc)
    pl.hot = comm.rank == who or who is None
    instrument(pl)
    s = api.fit(list(files), p, None, api.Standard, comm, **kw)
    return pl.n, np.array(s.eigs)


def fprm(k, d):
    kind, splits, shape, nv, o = FILES[k]
    return dict({'savefreq_disk2': True}, **o, n_dft=4, time_step=0.5, n_space_dims=len(shape), n_variables=nv, savedir=d, savefreq_disk=False)


def t_files(ctx, k, n):
    rep = Rep()
    with ctx.tmp() as top, quiet():
        x, files, kw = make_files(top + '/in', k, ctx.seed)
        kind, splits, shape, nv, o = FILES[k]
        ref = api.fit([x], prm('batch', shape, nv, top + '/ref', {}))
        os.makedirs(top + '/run')
        r = spmd.launch(n, run_files, (files, fprm(k, top + '/run/full'), kw, None, OSError, None), root=top + '/run')
        if not r.ok():
            rep.bad('run', 'files %r on %d ranks: %s' % (FILES[k], n, r.describe()))
            return rep
        if not cmp.close(r.values[0][1], ref.eigs, 1e-9):
            rep.bad('eigs', 'files %r on %d ranks: %s' % (FILES[k], n, cmp.err(r.values[0][1], ref.eigs)))
        for who in range(n):
            m = r.values[who][0]
            rep.add('accesses', m)
            for a in range(m):
                for exc in (OSError, IndexError):
                    rep.case('files/%d/%d/%d/%d/%s' % (k, n, who, a, exc.__name__), files=FILES[k], rank=who, access=a)
                    rep.states += 1
                    d = top + '/run/new'
                    shutil.rmtree(d, ignore_errors=True)
                    q = spmd.launch(n, run_files, (files, fprm(k, d), kw, a, exc, who), root=top + '/run')
                    at = 'files %r, library read call %d of %d raises %s on rank %d of %d: ' % (FILES[k], a + 1, m, exc.__name__, who, n)
                    if judge(rep, at, q, who, d):
                        return rep
    return rep


def cuts(size):
    return sorted({0, 1, 8, 64, 100, 128, 136, size // 4, size // 2, 3 * size // 4, size - 64, size - 8, size - 1} & set(range(size)))


def t_cut(ctx, k):
    '''input files missing or cut.'''
    rep = Rep()
    with ctx.tmp() as top, quiet():
        x, files, kw = make_files(top + '/in', k, ctx.seed)
        os.makedirs(top + '/run')
        r = spmd.launch(2, run_files, (files, fprm(k, top + '/run/full'), kw, None, OSError, None), root=top + '/run')
        if not r.ok():
            rep.bad('run', 'files %r: %s' % (FILES[k], r.describe()))
            return rep
        eigs = r.values[0][1]
        for i, f in enumerate(files):
            if ctx.tier == 'quick' and 1 < i < len(files) - 1:
                continue
            with open(f, 'rb') as h:
                content = h.read()
            for c in [None] + cuts(len(content)):
                rep.case('cut/%d/%d/%s' % (k, i, c), files=FILES[k], file=i, bytes=c)
                rep.states += 1
                if os.path.exists(f):
                    os.remove(f)
                if c is not None:
                    with open(f, 'wb') as h:
                        h.write(content[:c])
                d = top + '/run/new'
                shutil.rmtree(d, ignore_errors=True)
                q = spmd.launch(2, run_files, (files, fprm(k, d), kw, None, OSError, None), root=top + '/run')
                at = 'files %r, file %d %s: ' % (FILES[k], i, 'missing' if c is None else 'cut after %d of %d bytes' % (c, len(content)))
                for rk, o in enumerate(q.out):
                    if o and o[0] == 'done' and not cmp.close(o[1][1], eigs, 1e-9):
                        rep.bad('silent', at + 'rank %d returned another result' % rk)
                if not any(o and o[0] == 'exc' for o in q.out) and not q.ok():
                    rep.bad('hang', at + q.describe())
                if not q.ok() and results(d):
                    rep.bad('stored', at + 'results were stored')
                if rep.viol:
                    return rep
            with open(f, 'wb') as h:
                h.write(content)
    return rep


# ---------------------------------------------------------------- writing
def w_fit(comm, name, x, w, d, o):
    s = cls(name)(params=prm(name, x.shape[1:-1], x.shape[-1], d, o), weights=w, comm=comm)
    s.fit([x])


def w_use(comm, what, x, d, nv):
    m = api.spod_utils
    if what == 'op':
        m.compute_coeffs_op(x, d, comm=comm)
    elif what == 'conv':
        m.compute_coeffs_conv(x, d, comm=comm)
    elif what == 'rec':
        m.compute_reconstruction(d, time_idx='all', comm=comm)
    elif what == 'podop':
        api.pod_utils.compute_coeffs_op(x, d, comm=comm)
    elif what == 'podrec':
        api.pod_utils.compute_reconstruction(d, time_idx='all', comm=comm)


PROGS = [('fit', 'batch', {}), ('fit', 'batch', {'savefft': True}), ('fit', 'stream', {}), ('fit', 'pod', {}),
         ('use', 'op', None), ('use', 'conv', None), ('use', 'rec', None), ('use', 'podop', None), ('use', 'podrec', None)]


def w_none(comm, fn, args):
    return globals()[fn](None, *args)


def w_comm(comm, fn, args):
    return globals()[fn](comm, *args)


def prepare(what, x, w, top):
    '''the folder that a projection or reconstruction works on.'''
    name = 'pod' if what.startswith('pod') else 'batch'
    s = cls(name)(params=prm(name, x.shape[1:-1], x.shape[-1], top, {'n_modes_save': 2}), weights=w)
    s.fit([x])
    d = s._savedir_sim
    if 'rec' in what:
        d = (api.pod_utils if name == 'pod' else api.spod_utils).compute_coeffs_op(x, d)[1]
    return d


def t_write(ctx, k, n):
    rep = Rep()
    what, arg, o = PROGS[k]
    shape, nv = (3,), 2
    x = gen.field(ctx.seed, NT, shape, nv)
    w = gen.wdict(gen.weights(ctx.seed, shape, nv))
    go = w_comm if n else w_none
    with ctx.tmp() as top, quiet():
        for over in ((False, True) if what == 'fit' else (False,)):
            root = top + '/w%d' % over

            def fresh():
                shutil.rmtree(root, ignore_errors=True)
                os.makedirs(root)
                if what == 'fit':
                    if over:
                        w_fit(None, arg, x + 1, w, root, o)
                    return ('w_fit', (arg, x, w, root, o))
                return ('w_use', (arg, x, prepare(arg, x, w, root), nv))
            job = fresh()
            r = spmd.launch(max(n, 1), go, job, root=root)
            if not r.ok():
                rep.bad('run', '%r on %d ranks: %s' % (PROGS[k], n, r.describe()))
                return rep
            for who in range(max(n, 1)):
                m = sum(1 for e in r.events if e['rank'] == who and e['kind'] in MUTATING)
                rep.add('write_operations', m)
                for a in range(m):
                    rep.case('write/%d/%d/%d/%d/%d' % (k, n, who, a, over), program=PROGS[k], rank=who, operation=a)
                    rep.states += 1
                    job = fresh()
                    q = spmd.launch(max(n, 1), go, job, env={'fail': (who, a)}, root=root)
                    at = '%r on %s ranks, file operation %d of %d of rank %d fails%s: ' % (
                        PROGS[k], n or 'no', a + 1, m, who, ', results of an earlier fit in the folder' if over else '')
                    if q.status == 'hang':
                        rep.bad('hang', at + q.describe())
                    elif not q.out[who] or q.out[who][0] != 'exc':
                        rep.bad('silent', at + 'the rank did not report it: %s' % q.describe())
                    if rep.viol:
                        return rep
    return rep


# ---------------------------------------------------------------- results read back
USES = ['op', 'conv', 'rec', 'podop', 'podrec', 'modes', 'all', 'ortho', 'npy', 'op2', 'conv2', 'modes2', 'all2', 'ortho2']


def use(comm, what, x, d, nv):
    m, pm = api.spod_utils, api.pod_utils
    what = what.rstrip('2')
    if what in ('op', 'conv', 'podop'):
        f = {'op': m.compute_coeffs_op, 'conv': m.compute_coeffs_conv, 'podop': pm.compute_coeffs_op}[what](x, d, comm=comm)
        if comm:
            comm.Barrier()
        return [np.load(f[0]), np.load(os.path.join(f[1], 'modes_r.npy'))]
    if what in ('rec', 'podrec'):
        f = (m if what == 'rec' else pm).compute_reconstruction(d, time_idx='all', comm=comm)
        if comm:
            comm.Barrier()
        return [np.load(f[0])]
    if what == 'modes':
        return [np.array(api.post.get_modes_at_freq(d, f)) for f in range(3)]
    if what == 'all':
        return [np.array(api.post.get_all_modes(d))]
    if what == 'ortho':
        o = [m.check_orthogonality(d, [0], [j], [1], comm=comm) for j in (0, 1)]
        return [np.array([bool(np.all(q[0])) for q in o]), np.concatenate([np.ravel(q[1]) for q in o])]
    if what == 'npy':
        return [np.array(api.par.npy_load(comm, d + '/modes/freq_idx_%08d.npy' % f, axis=0)) for f in range(3)]
    raise ValueError(what)


def t_stored(ctx, k, n):
    rep = Rep()
    what = USES[k]
    shape, nv = (4,), 2
    x = gen.field(ctx.seed, NT, shape, nv)
    w = gen.wdict(gen.weights(ctx.seed, shape, nv))
    with ctx.tmp() as top, quiet():
        os.makedirs(top + '/b')
        d = prepare('podrec' if what == 'podrec' else 'podop' if what == 'podop' else 'rec' if what == 'rec' else 'op', x, w, top + '/b')
        rel = os.path.relpath(d, top + '/b')
        d = os.path.join(top, 'u', rel)

        def go():
            if not n:
                try:
                    return [('done', use(None, what, x, d, nv))]
                except Exception as e:  # noqa
                    return [('exc', type(e).__name__, str(e), '')]
            q = spmd.launch(n, use, (what, x, d, nv), root=top + '/u')
            return q.out if q.status != 'hang' else [None]
        if what.endswith('2'):
            # one file per mode
            md = os.path.join(top, 'b', rel, 'modes')
            for f in sorted(os.listdir(md)):
                m = np.load(os.path.join(md, f))
                os.remove(os.path.join(md, f))
                for i in range(m.shape[-1]):
                    np.save('%s/freq_idx_f%s_m%08d.npy' % (md, f[-12:-4], i), m[..., i])
        shutil.copytree(top + '/b', top + '/u')
        good = go()
        if any(o is None or o[0] != 'done' for o in good):
            rep.bad('run', '%s on %s ranks: %r' % (what, n or 'no', good))
            return rep
        names = sorted(f for f in digest(os.path.join(top, 'b', rel)) if what not in ('rec', 'podrec') or '/' not in f)
        for f in names:
            size = os.path.getsize(os.path.join(top, 'b', rel, f))
            for c in [None] + ([0] if f.endswith('.yaml') else cuts(size)):
                rep.case('stored/%d/%d/%s/%s' % (k, n, f, c), use=what, ranks=n, file=f, bytes=c)
                rep.states += 1
                shutil.rmtree(top + '/u', ignore_errors=True)
                shutil.copytree(top + '/b', top + '/u')
                if c is None:
                    os.remove(os.path.join(d, f))
                else:
                    os.truncate(os.path.join(d, f), c)
                if c is None and what == 'all' and f == max(q for q in names if 'freq_idx' in q):
                    continue       # nothing says how many frequencies there are
                at = '%s on %s ranks, file %s %s: ' % (what, n or 'no', f, 'missing' if c is None else 'cut to %d of %d bytes' % (c, size))
                for rk, (o, g) in enumerate(zip(go(), good)):
                    if o and o[0] == 'done' and any(not np.array_equal(p, q, equal_nan=True) for p, q in zip(o[1], g[1])):
                        rep.bad('silent', at + 'rank %d returned another result' % rk)
                        return rep
    return rep
