'''C23: results depend only on the inputs of the call, not on history.'''
import hashlib
import itertools
import os
import pickle
import shutil
import tempfile
import time
import traceback
import numpy as np
import yaml

from mc import api, gen, spmd
from mc.core import Rep, quiet

PROP = 'C23'
LEVEL = 'model_checking'
RULE = ('every sequence of operations up to the depth bound, explored as a tree: each node is a forked process with its own copy '
        'of objects and results folder; every operation is compared with the same operation after the shortest history that '
        'gives it its inputs, run in a fresh process and folder; inputs, working directory and stored results are compared '
        'before and after')
ASSUMPTIONS = ['two-rank operations of the alphabet run on the simulated MPI']

NT, SHAPE, NV = 13, (3, 2), 2
# fits: data, parameters, class
FITS = {
    'base': ('A', {}, 'std'),
    'nm1': ('A', {'n_modes_save': 1, 'savefft': True}, 'std'),
    'cplx': ('C', {'overlap': 0}, 'std'),
    'full': ('A', {'fullspectrum': True, 'dtype': 'single', 'conf_level': 0.8}, 'std'),
    'norm': ('A', {'normalize_weights': True, 'normalize_data': True, 'mean_type': 'blockwise'}, 'std'),
    'n5': ('B', {'n_dft': 5, 'n_modes_save': 2}, 'std'),
    'stream': ('A', {'n_modes_save': 2}, 'stream'),
    'disk2': ('A', {'savefreq_disk': False, 'savefreq_disk2': True, 'n_modes_save': 2}, 'disk2'),
    'par': ('B', {'n_modes_save': 2}, 'par'),
    'nodisk': ('B', {'savefreq_disk': False}, 'std'),
}
OPS = ['f:' + k for k in FITS] + ['re', 'r', 'c:all', 'c:sel', 'c:band', 'c:conv', 'c:sub', 'c:csub', 'x', 'x0', 'xs', 'o', 'pod']
ASKED = {'c:band': 'b', 'c:sub': 's', 'c:csub': 's', 'xs': 'q'}      # folders the caller asked for
EXP = {}


def digest(*arrays):
    h = hashlib.sha1()
    for a in arrays:
        h.update(repr((a.dtype.str, a.shape, a.strides)).encode() + a.tobytes())
    return h.hexdigest()


class World:
    def __init__(self, d, seed):
        self.d = d
        self.res = os.path.join(d, 'res')
        self.data = {'A': gen.field(seed, NT, SHAPE, NV), 'B': gen.field(seed + 1, NT, SHAPE, NV),
                     'C': gen.field(seed, NT, SHAPE, NV, 'complex')}
        self.w = gen.wdict(gen.weights(seed, SHAPE, NV))
        self.p = {}
        for k, (_, o, _c) in FITS.items():
            self.p[k] = api.params(xdim=len(SHAPE), nv=NV, savedir=self.res, dt=0.5, **dict({'n_dft': 4}, **o))
        self.pod = {'time_step': 0.5, 'n_space_dims': 2, 'n_variables': NV, 'savedir': self.res, 'n_modes_save': 3}
        self.nc = os.path.join(d, 'in.nc')
        if not os.path.exists(self.nc):
            import xarray as xr
            xr.Dataset({v: (('time', 'y', 'x'), self.data['A'][..., i]) for i, v in enumerate('up')}).to_netcdf(self.nc)
        self.objs = []          # [object, chain that fitted it, results folder]
        self.last = {}          # results folder -> chain of the last fit in it
        self.cur = None         # results folder of the last fit
        self.coeffs = {}        # coefficient folder -> chain
        self.order = []         # coefficient folders in the order they were made

    def inputs(self):
        return (digest(*self.data.values(), self.w['weights']), repr(sorted(self.w)), repr(self.p), repr(self.pod), os.getcwd(),
                tuple(sorted(os.environ.items())))

    def results(self):
        '''bytes of everything fits and projections stored.'''
        out = {}
        for r, _, fs in os.walk(self.res):
            for f in fs:
                if f.startswith(('reconstructed', 'part')):
                    continue
                with open(os.path.join(r, f), 'rb') as h:
                    out[os.path.join(r, f)] = hashlib.sha1(h.read()).digest()
        return out


def recs(w):
    '''bytes of the reconstructions.'''
    out = {}
    for r, _, fs in os.walk(w.res):
        for f in fs:
            if f.startswith(('reconstructed', 'part')):
                with open(os.path.join(r, f), 'rb') as h:
                    out[os.path.join(r, f)] = h.read()
    return out


def rel(w, p):
    return os.path.relpath(p, w.d)


def chain_of(w, op):
    '''the shortest history that gives operation op its inputs, or None if it has none yet.'''
    if op.startswith('f:') or op == 'pod':
        return [op]
    if op == 're':
        o = [x for x in w.objs if x[2] == w.cur]
        return None if not o or not o[-1][0] or w.last[w.cur][0] == 'f:disk2' else [w.last[w.cur][0], 're']
    if w.cur is None:
        return None
    if op == 'r':
        return w.last[w.cur] + ['r']
    c = w.last[w.cur]
    if op.startswith('c:') or op == 'o':
        if c[0] in ('f:nodisk',):
            return None
        return c + [op]
    if op in ('x', 'x0', 'xs'):
        alive = [k for k in w.order if k in w.coeffs]
        if not alive:
            return None
        return w.coeffs[alive[0] if op == 'x0' else alive[-1]] + ['xs' if op == 'xs' else 'x']
    raise KeyError(op)


def result_dirs(w):
    return {os.path.join(w.res, k) for k in os.listdir(w.res) if k.startswith('nfft')} if os.path.isdir(w.res) else set()


def par_fit(comm, data, p, w, files, kw):
    s = api.fit(files if files else [data], p, w, api.Standard, comm, **kw)
    a = api.attrs(s)
    a['dir'] = s.savedir_sim
    return a


def fit_output(w, a, has_modes):
    st = api.stored(a['dir'], has_modes)
    st['params'] = {k: (rel(w, v) if isinstance(v, str) and v.startswith(w.d) else v) for k, v in st['params'].items()}
    out = {'attrs': {k: v for k, v in a.items() if k != 'dir'}, 'stored': st, 'dir': rel(w, a['dir'])}
    if has_modes:
        out['files'] = sorted(os.listdir(os.path.join(a['dir'], 'modes')))
    return out


def do(w, op, chain):
    '''runs op on the real code; returns what it produced.'''
    if op.startswith('f:') or op == 're':
        k = op[2:] if op != 're' else chain[0][2:]
        dk, o, kind = FITS[k]
        x = w.data[dk if op != 're' else ('B' if dk != 'B' else 'A')]
        has = k != 'nodisk'
        if kind in ('disk2', 'par'):
            rs = spmd.launch(2, par_fit, (x, w.p[k], w.w, [w.nc] if kind == 'disk2' else None,
                                          {'variables': ['u', 'p']} if kind == 'disk2' else {}), root=w.d)
            if not rs.ok():
                raise RuntimeError('parallel fit: ' + rs.describe())
            a, s = rs.values[0], None
        else:
            s = [q for q in w.objs if q[2] == w.cur][-1][0] if op == 're' else \
                (api.Standard if kind == 'std' else api.Streaming)(params=w.p[k], weights=w.w)
            s.fit([x[:5], x[5:]] if k == 'n5' else [x])
            a = api.attrs(s)
        d = a['dir']
        w.objs = [q for q in w.objs if q[2] != d] + [[s, chain, d]]
        w.last[d], w.cur = chain, d
        return fit_output(w, a, has)
    if op == 'r':
        out = []
        for s, ch, d in w.objs:
            if ch[0] == 'f:nodisk':
                continue
            if s is not None:
                ms = [s.get_modes_at_freq(f) for f in range(s.n_freq)]
                out += [(ch, 'modes', [np.array(m) for m in ms])]
            m2 = api.post.get_all_modes(d)
            out += [(ch, 'all', np.array(m2))]
            ms = [api.post.get_modes_at_freq(d, f) for f in range(len(m2))]
            out += [(ch, 'dir', [np.array(m) for m in ms])]
            for m in [m2] + list(ms):
                m[...] = 77         # what the caller does with the modes must not reach the results
                del m
        return [q[1:] for q in out if q[0] == chain[:-1]], out
    d = w.cur
    if op.startswith('c:'):
        x = w.data['A']
        u = api.spod_utils
        s = [q for q in w.objs if q[2] == d][-1][0]
        if op == 'c:all':
            f, c = (s.compute_coeffs_op(x, d) if s is not None else u.compute_coeffs_op(x, d, svd=True))
        elif op == 'c:band':
            f, c = u.compute_coeffs_op(x, d, freq_idx=[1], savedir='b')
        elif op == 'c:sel':     # same folder as c:all
            f, c = u.compute_coeffs_op(w.data['B'], d, modes_idx=[0])
        elif op == 'c:sub':     # not the folder of c:all
            f, c = u.compute_coeffs_op(w.data['B'], d, modes_idx=[0], savedir='s')
        elif op == 'c:csub':    # same folder as c:sub
            f, c = u.compute_coeffs_conv(w.data['B'], d, savedir='s')
        else:                   # same folder as c:all
            f, c = u.compute_coeffs_conv(x, d)
        w.coeffs[c] = chain
        w.order = [k for k in w.order if k != c] + [c]
        with open(os.path.join(c, 'params_coeffs.yaml')) as h:
            p = yaml.load(h, Loader=yaml.FullLoader)
        return {'paths': (rel(w, f), rel(w, c)), 'coeffs': np.load(f), 'modes': np.load(os.path.join(c, 'modes_r.npy')),
                'mean': np.load(os.path.join(c, 'ltm.npy')),
                'params': {k: v for k, v in p.items() if not isinstance(v, str)}}
    if op in ('x', 'x0', 'xs'):
        alive = [k for k in w.order if k in w.coeffs]
        c = alive[0] if op == 'x0' else alive[-1]
        if op == 'xs':          # next to the reconstruction of x, which stays as it is
            kept = recs(w)
            f, c2 = api.spod_utils.compute_reconstruction(c, 'half', savedir='q', filename='part')
            new = recs(w)
            return {'paths': (rel(w, f), rel(w, c2)), 'name': os.path.basename(f), 'rec': np.load(f),
                    'kept': all(new.get(k) == kept[k] for k in kept if k != f)}
        s = [q for q in w.objs if q[2] == d]
        s = s[-1][0] if s else None
        if s is not None and hasattr(s, '_file_coeffs'):
            f, c2 = s.compute_reconstruction(c, 'all')
        else:
            f, c2 = api.spod_utils.compute_reconstruction(c, 'all')
        return {'paths': (rel(w, f), rel(w, c2)), 'rec': np.load(f)}
    if op == 'o':
        r = [api.spod_utils.check_orthogonality(d, [i], [0], [1])[1] for i in (0,)]
        return {'ortho': np.array(r)}
    if op == 'pod':
        s = api.POD(params=w.pod, weights=w.w)
        s.fit([w.data['A']])
        r = s._savedir_sim
        f, c = s.compute_coeffs_op(w.data['A'], r)
        g, _ = s.compute_reconstruction(c, time_idx='all')
        # a second set of coefficients and further reconstructions in folders of their own leave the first ones as they are
        f2, c2 = api.pod_utils.compute_coeffs_op(w.data['B'], r, modes_idx=[0], savedir='s')
        g2, d2 = api.pod_utils.compute_reconstruction(c2, time_idx='all', savedir='q')
        g3, d3 = api.pod_utils.compute_reconstruction(c, time_idx='half', savedir='q', filename='part')
        g4, d4 = api.pod_utils.compute_reconstruction(c2, time_idx='half', filename='part')
        files = (f, g, f2, g2, g3, g4)
        assert len({os.path.realpath(q) for q in files}) == len(files), 'results in the same file: %r' % (files,)
        for q, n, up in ((f2, c2, c), (g2, d2, c2), (g3, d3, c), (g4, d4, c2)):
            assert os.path.dirname(q) == n and os.path.realpath(n).startswith(os.path.realpath(up)), 'results in %s, %s' % (q, n)
        assert [os.path.basename(q) for q in (g3, g4)] == ['part.npy'] * 2, (g3, g4)
        return {'eigs': np.array(s.eigs), 'modes': np.load(os.path.join(r, 'modes.npy')), 'coeffs': np.load(f), 'rec': np.load(g),
                'more': [np.load(q) for q in (f2, g2, g3, g4)], 'paths': [rel(w, q) for q in files]}
    raise KeyError(op)


def differ(a, b, path=''):
    '''first difference between two results, or None.'''
    if isinstance(a, dict):
        if not isinstance(b, dict) or sorted(map(str, a)) != sorted(map(str, b)):
            return '%s has entries %r instead of %r' % (path, sorted(map(str, b)) if isinstance(b, dict) else b, sorted(map(str, a)))
        for k in a:
            r = differ(a[k], b[k], '%s.%s' % (path, k))
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return '%s has %d entries instead of %d' % (path, len(b), len(a))
        for i, (x, y) in enumerate(zip(a, b)):
            r = differ(x, y, '%s[%d]' % (path, i))
            if r:
                return r
        return None
    if isinstance(a, (np.ndarray, np.generic, float, complex)) and not isinstance(a, (bool, np.bool_)):
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape or x.dtype != y.dtype:
            return '%s is %s%r instead of %s%r' % (path, y.dtype, y.shape, x.dtype, x.shape)
        tol = 2e-3 if x.dtype in (np.float32, np.complex64) else 1e-7
        with np.errstate(all='ignore'):
            if x.size and not (np.abs(x - y) <= tol * max(np.abs(x).max(), 1e-30)).all():
                return '%s differs by %.3g (largest value %.3g)' % (path, np.nanmax(np.abs(x - y)), np.abs(x).max())
        return None
    return None if a == b else '%s is %r instead of %r' % (path, b, a)


def forked(fn, *args):
    '''fn(*args) in a forked process; its pickled return value.'''
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                v = ('ok', fn(*args))
            except BaseException as e:
                v = ('exc', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1200:]))
            with os.fdopen(wr, 'wb') as f:
                f.write(pickle.dumps(v))
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(r, 'rb') as f:
        b = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(b) if b else ('exc', 'process died')


def run_chain(chain, seed, base):
    d = tempfile.mkdtemp(dir=base)
    cwd = os.getcwd()
    os.chdir(d)
    try:
        with quiet():
            w = World(d, seed)
            for i, op in enumerate(chain):
                out = do(w, op, chain[:i + 1] if not (op == 're') else [chain[0], 're'])
            return out if chain[-1] != 'r' else out[0]
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def expected(chain, seed, base):
    '''results of the shortest history, from a process that has done nothing else.'''
    k = tuple(chain)
    if k not in EXP:
        EXP[k] = forked(run_chain, list(chain), seed, base)
    return EXP[k]


def all_chains():
    fits = [['f:' + k] for k in FITS]
    fits += [f + ['re'] for f in fits if FITS[f[0][2:]][2] in ('std', 'stream')]
    out = list(fits) + [['pod']]
    for f in fits:
        out.append(f + ['r'])
        if f[0] == 'f:nodisk':
            continue
        out.append(f + ['o'])
        for c in ('c:all', 'c:sel', 'c:band', 'c:conv', 'c:sub', 'c:csub'):
            out += [f + [c], f + [c, 'x'], f + [c, 'xs']]
    return out


def plan(tier, seed):
    shm = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    base = tempfile.mkdtemp(prefix='vp-c23-', dir=os.environ.get('VERIF_SCRATCH') or shm)
    try:
        for c in all_chains():
            expected(c, seed, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    depth = 3 if tier == 'quick' else 4
    first = [o for o in OPS if o.startswith('f:') or o == 'pod']
    out = [('t_hist', [[a, b], depth]) for a in first for b in OPS]
    for k in REFIT:
        out += [('t_refit', [k, a, 3 if tier == 'quick' else 5]) for a in REDATA]
    return out


# one object, fitted to one data set after the other
REDATA = {'a': (13, (3, 2), 'real'), 'short': (9, (3, 2), 'real'), 'long': (31, (3, 2), 'real'), 'complex': (13, (3, 2), 'complex'),
          'wide': (13, (2, 5), 'real')}
REFIT = {'std': {}, 'single': {'dtype': 'single', 'fullspectrum': True, 'n_modes_save': 2}, 'block': {'mean_type': 'blockwise', 'conf_level': 0.8,
         'normalize_data': True, 'normalize_weights': True, 'n_dft': 5, 'overlap': 25}, 'stream': {'n_modes_save': 2}, 'pod': {},
         'par': {'n_modes_save': 3}}


def redata(seed, k):
    nt, sh, kind = REDATA[k]
    return gen.field(seed + 3, nt, sh, 2, kind)


def refit(s, x, kind, d):
    '''what one fit of object s returns and stores.'''
    s.fit([x[:7], x[7:]] if len(x) > 13 else [x])
    if kind == 'pod':
        r = s.savedir_sim if hasattr(s, 'savedir_sim') else s._savedir_sim
        out = {'eigs': np.array(s.eigs), 'modes': np.load(os.path.join(r, 'modes.npy')),
               'weights': np.load(os.path.join(r, 'weights.npy'))}
        f, c = s.compute_coeffs_op(x, r)
        g, c = s.compute_reconstruction(c, time_idx='all')
        out['mean'] = np.load(os.path.join(c, 'ltm.npy'))
    else:
        out = api.attrs(s)
        r = out['dir']
        out['stored'] = api.stored(r)
        out['params'] = out['stored'].pop('params')
        out['files'] = sorted(os.listdir(os.path.join(r, 'modes')))
        for k in list(out['params']):
            if isinstance(out['params'][k], str) and out['params'][k].startswith(d):
                out['params'][k] = os.path.relpath(out['params'][k], d)
        out['own'] = [np.array(s.get_modes_at_freq(i)) for i in range(s.n_freq)]
        out['near'] = s.find_nearest_freq(0.3)
        if kind == 'stream':
            out['dir'] = os.path.relpath(r, d)
            return out
        f, c = s.compute_coeffs_op(x, r, modes_idx=[0, 1])
        g, c = s.compute_reconstruction(c, 'all')
        out['dir'] = os.path.relpath(r, d)
    out['coeffs'], out['rec'] = np.load(f), np.load(g)
    return out


def make(kind, d, comm=None):
    cls = {'stream': api.Streaming, 'pod': api.POD}.get(kind, api.Standard)
    return cls(params=api.params(xdim=2, nv=2, savedir=os.path.join(d, 'res'), dt=0.5, **dict({'n_dft': 4}, **REFIT[kind])), comm=comm)


def refits(comm, kind, xs, d):
    with quiet():
        s = make(kind, d, comm)
        return [refit(s, x, kind, d) for x in xs]


def run_refits(kind, xs, d):
    if kind != 'par':
        return refits(None, kind, xs, d)
    rs = spmd.launch(2, refits, (kind, xs, d), root=d)
    if not rs.ok():
        raise RuntimeError('parallel fits: ' + rs.describe())
    return rs.values[0]


def t_refit(ctx, kind, first, depth):
    '''every sequence of fits of one object: each is what a new object gives in a new folder.'''
    rep = Rep()
    names = [k for k in REDATA if kind != 'pod' or REDATA[k][2] == 'real']
    if first not in names:
        return rep
    if kind == 'par':
        depth = min(depth, 3) if ctx.tier != 'quick' else 2
    xs = {k: redata(ctx.seed, k) for k in names}
    exp = {}
    for k in names:
        with ctx.tmp() as d:
            exp[k] = run_refits(kind, [xs[k]], d)[0]
    for rest in itertools.product(names, repeat=depth - 1):
        seq = (first,) + rest
        with ctx.tmp() as d:
            try:
                out = run_refits(kind, [xs[k].copy() for k in seq], d)
            except Exception as e:
                rep.bad('exception', '%s object, fits of %s: %s: %s' % (kind, ' '.join(seq), type(e).__name__, e))
                return rep
        rep.case('refit %s %s' % (kind, ' '.join(seq)), kind=kind, fits=seq)
        for i, (k, o) in enumerate(zip(seq, out)):
            diff = differ(exp[k], o)
            if diff:
                rep.bad('history', '%s object, fits of %s: fit %d is not that of a new object: result%s' % (kind, ' '.join(seq), i + 1, diff))
                return rep
    return rep


def t_hist(ctx, prefix, depth):
    rep = Rep()
    with ctx.tmp() as d, ctx.tmp('s') as snaps:
        cwd = os.getcwd()
        os.chdir(d)
        try:
            with quiet():
                w = World(d, ctx.seed)
                explore(rep, ctx, w, [], prefix, depth, snaps)
        finally:
            os.chdir(cwd)
    return rep


def explore(rep, ctx, w, hist, prefix, depth, snaps):
    ops = [prefix[len(hist)]] if len(hist) < len(prefix) else OPS
    snap = None
    if len(ops) > 1:
        snap = tempfile.mkdtemp(dir=snaps)
        shutil.copytree(w.d, os.path.join(snap, 'c'))
    for op in ops:
        chain = chain_of(w, op)
        if chain is None:
            continue
        if snap and op != ops[0]:
            for e in os.listdir(w.d):
                p = os.path.join(w.d, e)
                shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
            shutil.copytree(os.path.join(snap, 'c'), w.d, dirs_exist_ok=True)
        kind, v = forked(step, ctx, w, hist + [op], op, chain, prefix, depth, snaps)
        if kind == 'exc':
            rep.bad('exception', 'history %s: %s' % (' '.join(hist + [op]), v))
        else:
            rep.evals += v.evals
            rep.keys |= v.keys
            rep.viol += v.viol
            rep.samples = rep.samples or v.samples
            for k, n in v.extra.items():
                rep.add(k, n)
        if rep.viol:
            break
    if snap:
        shutil.rmtree(snap, ignore_errors=True)


def step(ctx, w, hist, op, chain, prefix, depth, snaps):
    rep = Rep()
    name = 'history ' + ' '.join(hist)
    rep.case(' '.join(hist), history=hist)
    rep.add('depth_%d' % len(hist))
    before = w.inputs()
    files = None if op.startswith('f:') or op in ('re', 'pod') or op.startswith('c:') else w.results()
    out = do(w, op, chain)
    if w.inputs() != before:
        rep.bad('inputs', name + ': the last operation changed its inputs (data, weights or parameters) or the working directory')
        return rep
    if files is not None and w.results() != files:
        rep.bad('results', name + ': the last operation changed stored results')
        return rep
    if op in ASKED and (ASKED[op] not in out['paths'][1].split(os.sep) or os.path.dirname(out['paths'][0]) != out['paths'][1]):
        rep.bad('asked', '%s: savedir %r was asked for, the result is in %r' % (name, ASKED[op], out['paths']))
        return rep
    if op[0] in 'cx':
        parent = rel(w, w.cur) if op[0] == 'c' else [p for p in map(lambda k: rel(w, k), w.coeffs) if out['paths'][1].startswith(p)]
        if not parent or op[0] == 'c' and not out['paths'][1].startswith(parent + os.sep):
            rep.bad('asked', '%s: the result is in %r, outside the folder of its input' % (name, out['paths']))
            return rep
    if op == 'xs' and (out['name'] != 'part.npy' or not out['kept']):
        rep.bad('asked', '%s: a reconstruction named part is in %r%s' % (
            name, out['paths'], '' if out['kept'] else ' and another reconstruction changed'))
        return rep
    checks = [(chain, out)]
    if op == 'r':
        checks = []
        for ch in {tuple(q[0]) for q in out[1]}:
            checks.append((list(ch) + ['r'], [q[1:] for q in out[1] if tuple(q[0]) == ch]))
    for ch, got in checks:
        kind, exp = expected(ch, ctx.seed, snaps)
        if kind == 'exc':
            rep.bad('exception', 'history %s: %s' % (' '.join(ch), exp))
            return rep
        diff = differ(exp, got)
        if diff:
            rep.bad('history', '%s: not what %s gives in a fresh folder: result%s' % (name, ' '.join(ch), diff))
            return rep
    # a new fit makes coefficient folders of older fits in the same place stale only when they are overwritten
    if len(hist) < depth:
        explore(rep, ctx, w, hist, prefix, depth, snaps)
    return rep
