'''C26: meaningless configurations are refused, meaningful ones are accepted.'''
import hashlib
import itertools
import math
import os
import numpy as np

from mc import api, gen, spmd
from mc.core import Rep, quiet

PROP = 'C26'
LEVEL = 'model_checking'
RULE = ('the grid of block length 0..9 x overlap x series length around its limit x class, serial and on ranks; the full product '
        'of mean type x disk options x element type x weights x kind of data x communicator; lists of arrays and files with an '
        'entry missing or of another shape at every position; missing and non-integer parameters; each compared '
        'with an independent acceptance predicate; a refused fit must raise on every rank, end no rank waiting, and '
        'leave the files of earlier fits as they were and no new result')
ASSUMPTIONS = ['series of fewer than 9 snapshots in netCDF files may be refused (they are, because of the chunked reading)',
               'per-mode output and Streaming on arrays, negative overlaps and block lengths given as text are left open',
               'MPI is simulated (mc/fake/mpi4py, mc/sim.py); conformance with the installed Open MPI is checked by C02']
OVERLAPS = [0, 10, 25, 50, 75, 80, 90, 99, 100, 150]


def plan(tier, seed):
    it = [('t_grid', [c, n, o]) for c in (0, 1) for n in (None, 1, 2) for o in range(2)]
    it += [('t_options', [c, k, n]) for c in (0, 1) for k in ('array', 'nc', 'mat') for n in (None, 1, 2)]
    it += [('t_lists', [k, n]) for k in ('nc', 'mat') for n in (1, 2, 3)] + [('t_arrays', [n]) for n in (None, 1, 2)]
    it += [('t_params', []), ('t_pod', [None]), ('t_pod', [2]), ('t_utils', [])]
    return it


def snap(d):
    out = {}
    for b, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(b, f), 'rb') as h:
                out[os.path.relpath(os.path.join(b, f), d)] = hashlib.md5(h.read()).hexdigest()
    return out


def prog(comm, cls, data, p, w, kw):
    import warnings
    warnings.simplefilter('ignore')
    s = (api.POD if cls == 2 else [api.Standard, api.Streaming][cls])(params=dict(p), weights=w, comm=comm)
    s.fit(data, **kw)
    return [s.savedir_sim if cls < 2 else s._savedir_sim, getattr(s, 'n_blocks', None), getattr(s, 'n_freq', None), s.nt]


def attempt(n, cls, data, p, w=None, kw=None):
    '''-> (accepted | refused | mixed, text, value)'''
    if n is None:
        try:
            v = prog(None, cls, data, p, w, kw or {})
            return 'accepted', '', v
        except Exception as e:
            return 'refused', '%s: %s' % (type(e).__name__, str(e)[:120]), None
    r = spmd.launch(n, prog, [cls, data, p, w, kw or {}])
    if r.ok():
        return 'accepted', '', r.values[0]
    if r.status == 'ok' and all(o and o[0] == 'exc' for o in r.out):
        return 'refused', r.describe()[:120], None
    return 'mixed', r.describe()[:200], None


def judge(rep, at, want, n, cls, data, p, w=None, kw=None):
    '''want: True, False or None (open, but alike on all ranks)'''
    before = snap(p['savedir']) if 'savedir' in p else {}
    got, text, v = attempt(n, cls, data, p, w, kw)
    rep.states += 1
    if got == 'mixed':
        rep.bad('alike', at + 'not alike on all ranks: ' + text)
    elif want is True and got != 'accepted':
        rep.bad('refused', at + 'refused: ' + text)
    elif want is False and got != 'refused':
        rep.bad('accepted', at + 'not refused')
    if got != 'accepted' and 'savedir' in p and snap(p['savedir']) != before:
        a = snap(p['savedir'])
        rep.bad('stored', at + 'refused, but files were changed: %r' % sorted(k for k in set(a) | set(before) if a.get(k) != before.get(k))[:3])
    if got == 'accepted' and cls < 2 and not os.path.isfile(os.path.join(v[0], 'eigs_freq.npz')):
        rep.bad('nothing', at + 'accepted, but nothing is stored')
    return v if got == 'accepted' else None


def blocks(n_dft, ov, nt):
    no = int(math.ceil(n_dft * ov / 100))
    return 0 if no > n_dft - 1 else (nt - no) // (n_dft - no)


def t_grid(ctx, cls, n, half):
    rep = Rep()
    quick = ctx.tier == 'quick'
    with quiet(), ctx.tmp() as d:
        for n_dft in range(0, 10):
            if n is not None and quick and n_dft not in (2, 3, 4, 5, 8):
                continue
            for ov in OVERLAPS[half::2]:
                if n is not None and quick and ov not in (0, 50, 75, 90, 100):
                    continue
                no = int(math.ceil(n_dft * ov / 100))
                if no > n_dft - 1:
                    nts = [6, 20] if n is None else [9]
                else:
                    lim = no + 2 * (n_dft - no)
                    nts = sorted({1, 2, n_dft, lim - 2, lim - 1, lim, lim + 1, lim + n_dft - no - 1, lim + n_dft - no} - {0, -1}) if n is None \
                        else sorted({n_dft, lim - 1, lim} - {0, -1})
                for nt in nts:
                    ok = n_dft >= 4 and no <= n_dft - 1 and blocks(n_dft, ov, nt) >= 2
                    x = gen.field(ctx.seed, nt, (3,), 1, 'real', True)
                    rep.case('grid/%d/%s/%d/%d/%d' % (cls, n, n_dft, ov, nt), cls=cls, ranks=n, n_dft=n_dft, overlap=ov, nt=nt, accept=ok)
                    p = api.params(n_dft, 0.5, 1, 1, os.path.join(d, '%d-%d-%d' % (n_dft, ov, nt)), overlap=ov)
                    at = '%s, ranks %s, n_dft %d, overlap %d, %d snapshots: ' % (['Standard', 'Streaming'][cls], n, n_dft, ov, nt)
                    v = judge(rep, at, ok, n, cls, [x], p)
                    if v and v[1:] != [blocks(n_dft, ov, nt), n_dft // 2 + 1, nt]:
                        rep.bad('numbers', at + 'blocks, frequencies, snapshots %r' % (v[1:],))
                    if len(rep.viol) > 5:
                        return rep
    return rep


def t_options(ctx, cls, kind, n):
    rep = Rep()
    quick = ctx.tier == 'quick'
    par = n is not None
    shape = (2, 3, 2) if kind == 'mat' else (3, 2)
    nv, nt = 2, 12
    with quiet(), ctx.tmp() as d:
        x = gen.field(ctx.seed, nt, shape, nv, 'real', True)
        data, kw = [x], {}
        if kind != 'array':
            data, kw = files(d, kind, x)
            if cls == 1:
                kw = {}
        good = gen.weights(ctx.seed, shape, nv)
        wts = {'none': None, 'good': gen.wdict(good), 'flat': gen.wdict(good.ravel()), 'small': gen.wdict(good[..., :1]), 'big': gen.wdict(np.ones(good.size + 1)),
               'one': gen.wdict(np.ones(1))}
        means = ['longtime', 'blockwise', 'zero', 'LongTime', 'ZERO', 'mean', '', 'longtime ']
        dts = ['double', 'single', 'float', 'half', '']
        disks = [(0, 0), (0, 1), (1, 0), (1, 1)]
        if (quick and par) or kind != 'array':
            means, dts = ['longtime', 'blockwise', 'mean'], ['double', 'single', 'float']
            wts = {k: wts[k] for k in ('none', 'good', 'small')}
        run = os.path.join(d, 'run')
        base = api.params(4, 0.5, len(shape), nv, run)
        i = 0
        for m, t, (d1, d2), (wn, w) in itertools.product(means, dts, disks, wts.items()):
            faults = [m.lower() not in ('longtime', 'blockwise', 'zero'), t not in ('double', 'single'), wn in ('small', 'big', 'one'),
                      bool(d1 and d2), bool(d2 and not par), bool(kind != 'array' and (d1 or not par)), bool(kind == 'nc' and cls == 1),
                      bool(kind == 'array' and d2 and cls == 0)]
            nf = sum(faults)
            if nf > 2 or (nf > 1 and quick and (par or i % 3)):     # more faults at once decide nothing
                i += 1
                continue
            i += 1
            want = not nf
            if want and cls == 1 and (kind == 'mat' or d2):
                want = None
            p = dict(base, mean_type=m, dtype=t, savefreq_disk=bool(d1), savefreq_disk2=bool(d2))
            rep.case('opt/%d/%s/%s/%s/%s/%d%d/%s' % (cls, kind, n, m, t, d1, d2, wn), cls=cls, data=kind, ranks=n, mean=m, dtype=t, disk=d1, disk2=d2,
                     weights=wn, accept=want)
            at = '%s, %s, ranks %s, mean %r, dtype %r, disk %d%d, weights %s: ' % (['Standard', 'Streaming'][cls], kind, n, m, t, d1, d2, wn)
            judge(rep, at, want, n, cls, data, p, w, kw)
            if len(rep.viol) > 5:
                return rep
    return rep


def files(d, kind, x, splits=None):
    os.makedirs(d, exist_ok=True)
    out, t = [], 0
    if kind == 'nc':
        import xarray as xr
        vs = ['u', 'p', 'w'][:x.shape[-1]]
        for k, m in enumerate(splits or [len(x)]):
            f = os.path.join(d, 'in%d.nc' % k)
            xr.Dataset({v: (('time',) + tuple('zyx'[:x.ndim - 2]), x[t:t + m, ..., j]) for j, v in enumerate(vs)}).to_netcdf(f)
            out.append(f)
            t += m
        return out, {'variables': vs}
    import h5py
    for t in range(len(x)):
        f = os.path.join(d, 'm%03d.mat' % t)
        with h5py.File(f, 'w') as h:
            h['q'] = np.moveaxis(x[t], -1, 0)
        out.append(f)
    return out, {}


def t_lists(ctx, kind, n):
    '''file lists with a defect at every position'''
    rep = Rep()
    shape = (2, 3, 2) if kind == 'mat' else (3, 2)
    other = {'swap': shape[::-1] if kind == 'nc' else (3, 2, 2), 'size': shape[:-1] + (shape[-1] + 1,)}
    nv, nt = 2, 12
    x = gen.field(ctx.seed, nt, shape, nv, 'real', True)
    splits = [5, 4, 3] if kind == 'nc' else [1] * nt
    with quiet(), ctx.tmp() as d:
        good, kw = files(d + '/in', kind, x, splits)
        p = api.params(4, 0.5, len(shape), nv, d + '/run', overlap=50, savefreq_disk=False)
        alt = {}
        for k, s in other.items():
            alt[k] = files(d + '/in-' + k, kind, gen.field(ctx.seed, nt, s, nv, 'real', True), splits)[0]
        if kind == 'mat':
            alt['vars'] = files(d + '/in-v', kind, gen.field(ctx.seed, nt, shape, 1, 'real', True), splits)[0]
        for disk2 in (False, True):
            p['savefreq_disk2'] = disk2

            def go(name, want, data, kw=kw, pp=None):
                rep.case('list/%s/%d/%d/%s' % (kind, n, disk2, name), kind=kind, ranks=n, disk2=disk2, what=name, accept=want)
                judge(rep, '%s files, ranks %d, per-mode %d, %s: ' % (kind, n, disk2, name), want, n, 0, data, dict(p, **(pp or {})), None, kw)
            go('good', True, good)
            pos = range(len(good)) if kind == 'nc' or ctx.tier != 'quick' else (0, 1, 6, 11)
            for i in pos:
                go('missing %d' % i, False, good[:i] + [good[i] + 'x.' + kind] + good[i + 1:])
                for k in alt:
                    go('%s %d' % (k, i), False, good[:i] + [alt[k][i]] + good[i + 1:])
            go('empty', False, [])
            go('variables 1', False if kind == 'mat' else None, good, pp={'n_variables': 1})
            go('variables 3', False, good, pp={'n_variables': 3})
            go('n_dft 2', False, good, pp={'n_dft': 2})
            go('n_dft 12', False, good, pp={'n_dft': 12, 'overlap': 0})
            go('mean', False, good, pp={'mean_type': 'none'})
            if kind == 'nc':
                go('no variables', False, good, {})
                go('variable name', False, good, {'variables': 'up'})
                go('unknown variable', False, good, {'variables': ['u', 'q']})
                go('first unknown', False, good, {'variables': ['q', 'u']})
                go('one variable', False, good, {'variables': ['u']})
                go('three variables', False, good, {'variables': ['u', 'p', 'u']})
                go('swapped', True, good, {'variables': ['p', 'u']})
                go('short', None, good[:1])
    return rep


def t_arrays(ctx, n):
    rep = Rep()
    shape, nv = (3, 2), 2
    a = [gen.field(ctx.seed, m, shape, nv, 'real', True) for m in (5, 4, 3)]
    alt = {'swap': gen.field(ctx.seed, 4, (2, 3), nv, 'real', True), 'size': gen.field(ctx.seed, 4, (3, 3), nv, 'real', True),
           'vars': gen.field(ctx.seed, 4, (3, 2), 3, 'real', True), 'flat': gen.field(ctx.seed, 4, (6,), nv, 'real', True),
           'thin': gen.field(ctx.seed, 4, (3, 1), nv, 'real', True), 'onevar': gen.field(ctx.seed, 4, (3, 2), 1, 'real', True),
           'row': gen.field(ctx.seed, 4, (1, 2), nv, 'real', True), 'point': gen.field(ctx.seed, 4, (1, 1), nv, 'real', True)}
    with quiet(), ctx.tmp() as d:
        for cls in (0, 1, 2):
            p = api.params(4, 0.5, 2, nv, d + '/run', overlap=50)
            name = ['Standard', 'Streaming', 'POD'][cls]

            def go(what, want, data, pp=None, w=None):
                rep.case('arrays/%s/%d/%s' % (n, cls, what), ranks=n, cls=name, what=what, accept=want)
                judge(rep, '%s, ranks %s, %s: ' % (name, n, what), want, n, cls, data, dict(p, **(pp or {})), w)
            go('good', True, a)
            go('single array', True, np.concatenate(a))
            for i in range(3):
                for k, v in alt.items():
                    go('%s at %d' % (k, i), False, a[:i] + [v] + a[i + 1:])
            go('empty', False, [])
            go('variables 1', False, a, {'n_variables': 1, 'n_space_dims': 2})
            go('variables 3', False, a, {'n_variables': 3})
            go('weights', True, a, None, gen.wdict(gen.weights(0, shape, nv)))
            go('weights per point', False, a, None, gen.wdict(np.ones(shape)))
    return rep


def t_params(ctx):
    '''required parameters and block lengths'''
    rep = Rep()
    x = gen.field(ctx.seed, 12, (3,), 1, 'real', True)
    with quiet(), ctx.tmp() as d:
        for cls in (0, 1):
            full = api.params(4, 0.5, 1, 1, d + '/run')
            for r in range(1, 5):
                for miss in itertools.combinations(['n_dft', 'time_step', 'n_space_dims', 'n_variables'], r):
                    p = {k: v for k, v in full.items() if k not in miss}
                    rep.case('missing/%d/%r' % (cls, miss), missing=miss)
                    judge(rep, 'without %r: ' % (miss,), False, None, cls, [x], p)
            for v, ok in ((4, True), (4.0, True), (np.float64(5), None), (np.int64(5), None), (4.5, False), (5.999, False), (None, False), ('four', False),
                          ([4], False), (-4, False), (float('nan'), False), (float('inf'), False)):
                rep.case('n_dft/%d/%r' % (cls, v), n_dft=repr(v), accept=ok)
                judge(rep, 'n_dft %r: ' % (v,), ok, None, cls, [x], dict(full, n_dft=v))
        for cls in (0,):
            # options that mean the same or nothing else
            for k, vals in (('n_modes_save', [1, 2, 3, 100]), ('conf_level', [0.5, 0.95, 0.999]), ('normalize_weights', [True, False]),
                            ('normalize_data', [True, False]), ('fullspectrum', [True, False]), ('savefft', [True, False]), ('reuse_blocks', [True, False])):
                for v in vals:
                    rep.case('accept/%s/%r' % (k, v))
                    judge(rep, '%s %r: ' % (k, v), True, None, cls, [x], dict(full, **{k: v}))
    return rep


def t_pod(ctx, n):
    rep = Rep()
    shape, nv = (3, 2), 2
    with quiet(), ctx.tmp() as d:
        good = gen.weights(ctx.seed, shape, nv)
        wts = {'none': None, 'good': gen.wdict(good), 'flat': gen.wdict(good.ravel()), 'small': gen.wdict(good[..., :1]), 'big': gen.wdict(np.ones(good.size + 1))}
        for nt in (2, 5):
            x = gen.field(ctx.seed, nt, shape, nv, 'real', True)
            for m, t, (wn, w) in itertools.product(['longtime', 'zero', 'Zero', 'blockwise', 'mean'], ['double', 'single', 'float'], wts.items()):
                ok = m.lower() in ('longtime', 'zero') and t in ('double', 'single') and wn in ('none', 'good', 'flat')
                if n and not ok and sum([m.lower() not in ('longtime', 'zero'), t not in ('double', 'single'), wn in ('small', 'big')]) > 1:
                    continue
                for nm in (1, 3, 1000) if ok else (1,):
                    p = {'time_step': 0.5, 'n_space_dims': 2, 'n_variables': nv, 'savedir': d + '/run', 'mean_type': m, 'dtype': t, 'n_modes_save': nm}
                    rep.case('pod/%s/%d/%s/%s/%s/%d' % (n, nt, m, t, wn, nm), ranks=n, nt=nt, mean=m, dtype=t, weights=wn, accept=ok)
                    judge(rep, 'POD, ranks %s, %d snapshots, mean %r, dtype %r, weights %s, %d modes: ' % (n, nt, m, t, wn, nm), ok, n, 2, [x], p, w)
            full = {'time_step': 0.5, 'n_space_dims': 2, 'n_variables': nv, 'savedir': d + '/run'}
            for miss in ('time_step', 'n_space_dims', 'n_variables'):
                rep.case('pod-missing/%s/%s/%d' % (n, miss, nt))
                judge(rep, 'POD without %s: ' % miss, False, n, 2, [x], {k: v for k, v in full.items() if k != miss})
    return rep


def refuse(rep, at, f, *a, **k):
    rep.case('utils/' + at)
    try:
        f(*a, **k)
    except Exception:
        return
    rep.bad('utils', at + ': not refused')


def t_utils(ctx):
    '''the functions on stored results'''
    rep = Rep()
    x = gen.field(ctx.seed, 12, (3, 2), 1, 'real', True)
    with quiet(), ctx.tmp() as d:
        a, s = api.serial([x], api.params(4, 0.5, 2, 1, d + '/run'))
        su = api.spod_utils
        rd = a['dir']
        f, cd = su.compute_coeffs_op(x, rd, savedir=d + '/c')
        before = snap(d)
        for t in ('float', 'half', '', None, int):
            refuse(rep, 'coefficients with dtype %r' % (t,), su.compute_coeffs_op, x, rd, savedir=d + '/c2', dtype=t)
            refuse(rep, 'convolution with dtype %r' % (t,), su.compute_coeffs_conv, x, rd, savedir=d + '/c2', dtype=t)
            refuse(rep, 'orthogonality with dtype %r' % (t,), su.check_orthogonality, rd, [0, 1], [0], dtype=t)
            refuse(rep, 'reconstruction with dtype %r' % (t,), su.compute_reconstruction, cd, 'all', coeffs=f, savedir=d + '/c2', dtype=t)
        for t in ('some', 3.5, {}):
            refuse(rep, 'reconstruction of times %r' % (t,), su.compute_reconstruction, cd, t, coeffs=f, savedir=d + '/c2')
        for c in (np.zeros(3), np.zeros((2, 2, 2)), np.zeros((2, 2, 2, 2))):
            refuse(rep, 'reconstruction from coefficients of shape %r' % (c.shape,), su.compute_reconstruction, cd, 'all', coeffs=c, savedir=d + '/c2')
        for nm in ('l3', '', 'linf2', 'h1'):
            refuse(rep, 'norm %r' % nm, api.errs.compute_l_errors, x, x + 1, norm_type=nm)
        for nm in ('h2', 'l1', ''):
            refuse(rep, 'norm %r (time derivative)' % nm, api.errs.compute_h_errors, x, x + 1, 0.5, norm_type=nm)
        now = {k: v for k, v in snap(d).items() if not k.startswith('c2')}
        if now != before:
            rep.bad('changed', 'refused calls changed stored results: %r' % sorted(k for k in set(now) | set(before) if now.get(k) != before.get(k))[:3])
    return rep
