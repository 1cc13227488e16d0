'''C24: reused Fourier blocks never give a silently wrong result.'''
import hashlib
import itertools
import os
import shutil
import numpy as np

from mc import api, cmp, crash, gen, spmd
from mc.core import Rep, quiet

PROP = 'C24'
LEVEL = 'fault_enumeration'
RULE = ('crash: the block-writing run is recorded operation by operation (serial, 2 and 3 ranks on the simulated MPI); every '
        'consistent cut of its file operations over all ranks, and every cut with one more write torn at header and data '
        'boundaries, is rebuilt on disk and fits that reuse the blocks, recompute them, or rewrite them are run on it (earlier blocks: none, those of the same kind of fit, those of a one-sided fit). '
        'history: every sequence of fits of two data sets with and without storing and reusing blocks, against a model of '
        'whose blocks are there; mix: every writer rank count x reader rank count x option; missing: every single block file missing')
ASSUMPTIONS = ['operations reach the disk in the order issued by each rank, and across ranks in the order enforced by MPI '
               'synchronisation; single writes may be cut short', 'MPI is simulated']

# shape, variables, trailing axis, options
CASES = [((3,), 1, True, {}), ((2, 3), 2, True, {'overlap': 50}), ((2,), 1, False, {'dtype': 'single'}), ((3,), 1, True, {'_kind': 'complex'}),
         ((1, 2), 2, True, {'fullspectrum': True}),
         # more blocks than points
         ((4,), 1, True, {'_nt': 24}), ((2, 3), 1, True, {'_nt': 21, 'overlap': 50}), ((3,), 4, True, {'_nt': 13}),
         # many blocks and frequencies
         ((2,), 1, True, {'_nt': 160, 'n_dft': 24, 'overlap': 50, 'n_modes_save': 2})]
NT = 9
NCRASH = 5


def setup(seed, ci):
    shape, nv, axis, o = CASES[ci]
    o = dict(o)
    kind, nt = o.pop('_kind', 'real'), o.pop('_nt', NT)
    a, b = gen.field(seed, nt, shape, nv, kind, True), gen.field(seed + 1, nt, shape, nv, kind, True)
    if not axis:
        a, b = a[..., 0], b[..., 0]
    return shape, nv, a, b, gen.wdict(gen.weights(seed, shape, nv)), o


def plan(tier, seed):
    cr = []
    for ci in range(NCRASH):
        for n in (0, 2, 3):
            for old in (False, True):
                if tier == 'quick' and (n == 3 and ci not in (0,) or (ci > 1 and n == 2 and old)):
                    continue
                cr.append(('t_crash', [ci, n, old]))
    cr += [('t_crash', [0, n, 'one-sided']) for n in (0, 2)]
    ranks = [0, 1, 2, 3, 4] if tier == 'quick' else list(range(8))
    mix = [('t_mix', [ci, wr, ranks]) for ci in range(len(CASES)) for wr in ranks]
    hist = [('t_history', [0, r, o, 2]) for r in (0, 2) for o in range(len(OPTS))]
    hist += [('t_history', [2, 0, o, 3]) for o in range(len(OPTS))]
    if tier != 'quick':
        hist = [('t_history', [c, r, o, 3]) for c in (0, 1, 2) for r in (0, 2, 3) for o in range(len(OPTS))]
    fl = [('t_files', [i, wr, ranks[1:]]) for i in range(len(FILES)) for wr in ranks[1:]]
    return cr + mix + fl + [('t_missing', [ci]) for ci in range(NCRASH)] + hist


def P(shape, nv, d, o, **kw):
    return api.params(dt=0.5, xdim=len(shape), nv=nv, savedir=d, **dict({'n_dft': 4}, **dict(o, **kw)))


def run(comm, x, p, w, kw=None):
    s = api.fit(x if isinstance(x, list) else [x], p, w, api.Standard, comm, **(kw or {}))
    return api.attrs(s)


def run_serial(comm, x, p, w):
    return run(None, x, p, w)


def reference(x, p, w, d):
    with quiet():
        a = run(None, x, dict(p, savedir=d), w)
        st = api.stored(a['dir'])
    return a, st


def agree(a, dd, ref, single, spectrum=False):
    '''differences between a fit and the reference (spectrum: in eigenvalues, frequencies and modes only).'''
    r, st = ref
    rt, mt = (1e-3, 5e-3) if single else (1e-9, 1e-7)
    out = cmp.spod_attrs(a, r, rt)
    out += cmp.spod_stored(api.stored(dd), st, rt, mt)
    return [q for q in out if not spectrum or not any(t in q[0] for t in ('ltm', 'mean', 'weights', 'params', 'xdim'))]


def tree_digest(d):
    h = hashlib.sha1()
    for r, ds, fs in os.walk(d):
        ds.sort()
        if os.path.basename(r) == 'modes':
            continue
        for f in sorted(fs):
            with open(os.path.join(r, f), 'rb') as g:
                h.update(os.path.relpath(os.path.join(r, f), d).encode() + b'\0' + g.read())
    return h.hexdigest()


def t_crash(ctx, ci, n, old):
    rep = Rep()
    shape, nv, A, B, w, o = setup(ctx.seed, ci)
    single = o.get('dtype') == 'single'
    with ctx.tmp() as top, quiet():
        live, orig, base = top + '/live', top + '/orig', top + '/base'
        os.makedirs(orig)
        pB = pA = P(shape, nv, orig, o, savefft=True)
        if old == 'one-sided':      # the earlier blocks are a part of those being written, which do not reuse them
            pA = P(shape, nv, orig, o, savefft=True, reuse_blocks=True, fullspectrum=True)
        refA = reference(A, P(shape, nv, None, o), w, top + '/ra')
        refB = reference(B, P(shape, nv, None, o), w, top + '/rb')
        if old:
            run(None, B, pB, w)
        shutil.copytree(orig, base)
        res = spmd.sim.Sim(max(n, 1), run if n else run_serial, (A, pA, w), {'effects': True}, orig).run()
        if not res.ok():
            rep.bad('run', 'block-writing run on %d ranks: %s' % (n, res.describe()))
            return rep
        rep.add('file_operations', len(crash.mutating(res)))
        oldblocks = tree_digest_blocks(base)
        seen = set()
        for desc in crash.states(res, max(n, 1), orig, live, base, ctx.tier != 'quick' or not n):
            rep.transitions += 1
            dg = tree_digest(live)
            if dg in seen:
                continue
            seen.add(dg)
            rep.states += 1
            keep = top + '/keep'
            shutil.rmtree(keep, ignore_errors=True)
            shutil.copytree(live, keep)
            same_old = old and tree_digest_blocks(live) == oldblocks
            readers = [(0, {'reuse_blocks': True}), (0, {'reuse_blocks': True, 'savefft': True}), (0, {})]
            if ctx.tier != 'quick' or (n and len(seen) % 4 == 1):
                readers += [(2, {'reuse_blocks': True}), (3, {'reuse_blocks': True, 'savefft': True})]
            for rr, ro in readers:
                at = 'blocks written on %s ranks, %s, stopped at %r; fit on %s ranks with %r: ' % (
                    n or 'no', 'over those of an earlier%s fit' % (' ' + old if old == 'one-sided' else '') if old else 'for the first time', desc, rr or 'no', ro)
                rep.case('%d/%d/%s/%s/%d/%r' % (ci, n, old, dg, rr, sorted(ro)), shape=shape, writers=n, old=old, stopped=desc)
                rep.traces += 1
                shutil.rmtree(live, ignore_errors=True)
                shutil.copytree(keep, live)
                p = P(shape, nv, live, o, **ro)
                if rr:
                    sm = spmd.launch(rr, run, (A, p, w), root=live)
                    a = sm.values[0] if sm.ok() else None
                    if sm.status == 'deadlock' and all(v is None or v[0] == 'done' for v in sm.out):
                        rep.bad('deadlock', at + sm.describe())
                        return rep
                    err = sm.describe()
                else:
                    try:
                        a = run(None, A, p, w)
                    except Exception as e:  # noqa: an error is an acceptable answer to unusable blocks
                        a, err = None, '%s: %s' % (type(e).__name__, e)
                if a is None:
                    rep.add('errors_raised')
                    if not ro.get('reuse_blocks'):
                        rep.bad('refit', at + 'raised ' + err)
                        return rep
                    continue
                diff = agree(a, a['dir'], refA, single)
                if diff and same_old and ro.get('reuse_blocks'):
                    diff = agree(a, a['dir'], refB, single, True)      # nothing was written yet: the earlier fit's blocks are intact
                if diff:
                    rep.bad('silent', at + diff[0][1])
                    return rep
                if ro.get('reuse_blocks') and ro.get('savefft') and not same_old:
                    # what it left behind is usable
                    a = run(None, A, P(shape, nv, live, o, reuse_blocks=True), w)
                    diff = agree(a, a['dir'], refA, single)
                    if diff:
                        rep.bad('silent', at + 'reused afterwards: ' + diff[0][1])
                        return rep
    return rep


def tree_digest_blocks(d):
    h = hashlib.sha1()
    for r, ds, fs in os.walk(d):
        ds.sort()
        for f in sorted(fs):
            if 'block' in os.path.relpath(os.path.join(r, f), d):
                with open(os.path.join(r, f), 'rb') as g:
                    h.update(f.encode() + b'\0' + g.read())
    return h.hexdigest()


def fit_on(rep, at, n, x, p, w, root, kw=None):
    if not n:
        return run(None, x, p, w)
    sm = spmd.launch(n, run, (x, p, w, kw), root=root)
    if not sm.ok():
        rep.bad('run', at + sm.describe())
        return None
    return sm.values[0]


def t_mix(ctx, ci, wr, ranks):
    rep = Rep()
    shape, nv, A, B, w, o = setup(ctx.seed, ci)
    single = o.get('dtype') == 'single'
    w2 = gen.wdict(gen.weights(ctx.seed + 3, shape, nv))
    with ctx.tmp() as top, quiet():
        ref = reference(A, P(shape, nv, None, o), w, top + '/ra')
        ref2 = reference(A, P(shape, nv, None, o, n_modes_save=1, conf_level=0.8), w2, top + '/rb')
        os.makedirs(top + '/w')
        at = 'shape %r, %r, blocks written on %s ranks' % (CASES[ci][:3], o, wr or 'no')
        a = fit_on(rep, at + ': ', wr, A, P(shape, nv, top + '/w', o, savefft=True), w, top + '/w')
        if a is None:
            return rep
        diff = agree(a, a['dir'], ref, single)
        if diff:
            rep.bad('writer', at + ': ' + diff[0][1])
            return rep
        for rr in ranks:
            for alt in (0, 1):
                rep.case('mix/%d/%d/%d/%d' % (ci, wr, rr, alt), shape=shape, writers=wr, readers=rr)
                d = top + '/r'
                shutil.rmtree(d, ignore_errors=True)
                shutil.copytree(top + '/w', d)
                at2 = at + ', reused on %s ranks%s: ' % (rr or 'no', ', other weights and modes' if alt else '')
                p = P(shape, nv, d, o, reuse_blocks=True, **({'n_modes_save': 1, 'conf_level': 0.8} if alt else {}))
                # the data must not be needed for the blocks: other data gives the same result when the blocks are reused
                a = fit_on(rep, at2, rr, A, p, w2 if alt else w, d)
                if a is None:
                    return rep
                diff = agree(a, a['dir'], ref2 if alt else ref, single)
                if diff:
                    rep.bad('reuse', at2 + diff[0][1])
                    return rep
    return rep


def t_missing(ctx, ci):
    '''every subset of one or two block files missing or emptied.'''
    rep = Rep()
    shape, nv, A, B, w, o = setup(ctx.seed, ci)
    single = o.get('dtype') == 'single'
    with ctx.tmp() as top, quiet():
        ref = reference(A, P(shape, nv, None, o), w, top + '/ra')
        os.makedirs(top + '/w')
        a = run(None, A, P(shape, nv, top + '/w', o, savefft=True), w)
        rel = os.path.relpath(a['dir'], top + '/w')
        fs = [os.path.relpath(os.path.join(r, f), top + '/w') for r, _, g in os.walk(top + '/w') for f in sorted(g)
              if 'block' in os.path.relpath(os.path.join(r, f), top + '/w')]
        for k in (1, 2):
            for sub in itertools.combinations(range(len(fs)), k):
                for how in ('missing', 'empty', 'header'):
                    if how != 'missing' and k == 2:
                        continue
                    rep.case('missing/%d/%r/%s' % (ci, sub, how), files=[fs[i] for i in sub], how=how)
                    d = top + '/r'
                    shutil.rmtree(d, ignore_errors=True)
                    shutil.copytree(top + '/w', d)
                    for i in sub:
                        if how == 'missing':
                            os.remove(os.path.join(d, fs[i]))
                        else:
                            os.truncate(os.path.join(d, fs[i]), 0 if how == 'empty' else 128)
                    try:
                        a = run(None, A, P(shape, nv, d, o, reuse_blocks=True), w)
                    except Exception as e:  # noqa
                        if how == 'missing':
                            rep.bad('missing', 'files %r missing: fit with reuse_blocks raised %r' % ([fs[i] for i in sub], e))
                            return rep
                        continue
                    diff = agree(a, a['dir'], ref, single)
                    if diff:
                        rep.bad('silent', 'files %r %s: ' % ([fs[i] for i in sub], how) + diff[0][1])
                        return rep
    return rep


FILES = [((3, 2), 1), ((5,), 2), ((2, 2, 2), 1)]


def t_files(ctx, i, wr, ranks):
    '''blocks of data read from netCDF files.'''
    rep = Rep()
    shape, nv = FILES[i]
    import xarray as xr
    x = gen.field(ctx.seed, NT, shape, nv)
    w = gen.wdict(gen.weights(ctx.seed, shape, nv))
    vs = ['u', 'p'][:nv]
    o = {'savefreq_disk': False, 'savefreq_disk2': True}
    with ctx.tmp() as top, quiet():
        files = []
        for k, (s, e) in enumerate(((0, 4), (4, NT))):
            f = '%s/in%d.nc' % (top, k)
            xr.Dataset({v: (('time',) + tuple('zyx'[:len(shape)]), x[s:e, ..., j]) for j, v in enumerate(vs)}).to_netcdf(f)
            files.append(f)
        ref = reference(x, P(shape, nv, None, {}), w, top + '/ra')
        os.makedirs(top + '/w')
        at = 'netCDF data %r with %d variables, blocks written on %d ranks' % (shape, nv, wr)
        kw = {'variables': vs}
        a = fit_on(rep, at + ': ', wr, files, P(shape, nv, top + '/w', o, savefft=True), w, top + '/w', kw)
        if a is None:
            return rep
        for rr in [0] + ranks:
            for src in ([files] if rr else []) + [x]:
                rep.case('files/%d/%d/%d/%d' % (i, wr, rr, src is x), shape=shape, writers=wr, readers=rr, from_files=src is not x)
                d = top + '/r'
                shutil.rmtree(d, ignore_errors=True)
                shutil.copytree(top + '/w', d)
                at2 = at + ', reused on %s ranks with data from %s: ' % (rr or 'no', 'memory' if src is x else 'files')
                a = fit_on(rep, at2, rr, src, P(shape, nv, d, {} if src is x else o, reuse_blocks=True), w, d, {} if src is x else kw)
                if a is None:
                    return rep
                diff = cmp.spod_attrs(a, ref[0], 1e-9) + cmp.spod_stored(api.stored(a['dir']), ref[1], 1e-9, 1e-7, same_dtype=False)
                diff = [q for q in diff if q[0] != 'stored-weights' and q[0] != 'stored-ltm'] if src is not x else diff
                if diff:
                    rep.bad('reuse', at2 + diff[0][1])
                    return rep
    return rep


# store blocks, reuse blocks
OPTS = [(d, s, r) for d in 'AB' for s in (False, True) for r in (False, True)]


def t_history(ctx, ci, n, first, depth):
    '''every sequence of fits in one folder; the model is whose blocks are stored.'''
    rep = Rep()
    shape, nv, A, B, w, o = setup(ctx.seed, ci)
    single = o.get('dtype') == 'single'
    data = {'A': A, 'B': B}
    with ctx.tmp() as top, quiet():
        refs = {k: reference(v, P(shape, nv, None, o), w, top + '/r' + k) for k, v in data.items()}
        live = top + '/live'

        def explore(hist, owner, state):
            for op in ([OPTS[first]] if not hist else OPTS):
                d, save, reuse = op
                shutil.rmtree(live, ignore_errors=True)
                if state:
                    shutil.copytree(state, live)
                else:
                    os.makedirs(live)
                h = hist + [op]
                at = 'fits (data, blocks stored, blocks reused) %r on %s ranks: ' % (h, n or 'no')
                rep.case('history/%d/%d/%r' % (ci, n, h), shape=shape, ranks=n, fits=h)
                rep.states += 1
                rep.traces += 1
                a = fit_on(rep, at, n if len(h) < 3 else 0, data[d], P(shape, nv, live, o, savefft=save, reuse_blocks=reuse), w, live)
                if a is None:
                    return False
                used = owner if reuse and owner else d
                diff = agree(a, a['dir'], refs[used], single, used != d)
                if diff:
                    rep.bad('history', at + 'expected those of data %s: ' % used + diff[0][1])
                    return False
                if len(h) < depth:
                    keep = top + '/k%d' % len(h)
                    shutil.rmtree(keep, ignore_errors=True)
                    shutil.copytree(live, keep)
                    if not explore(h, used if save else owner, keep):
                        return False
            return True
        explore([], None, None)
    return rep
