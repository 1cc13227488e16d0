'''C08: parallel projection, reconstruction and orthogonality equal the serial ones.'''
import os
import shutil
import numpy as np
import yaml

from mc import api, cmp, gen, spmd
from mc.core import Rep, quiet

PROP = 'C08'
LEVEL = 'model_checking'
RULE = ('every results folder (shape x variables, one file per frequency or one per mode) x projection method x '
        'frequency selection x rank count: coefficients, stored modes, mean, parameters, reconstruction and '
        'orthogonality values computed on the simulated MPI are compared with the serial ones of the real code')
ASSUMPTIONS = ['MPI is simulated (mc/fake/mpi4py, mc/sim.py); conformance with the installed Open MPI is checked by C02']

# shape, variables, trailing axis, per-mode files from netCDF, modes saved
SRC = [([7], 1, True, 0, 2), ([7], 1, False, 0, 2), ([4, 3], 2, True, 0, 3), ([2, 5], 1, False, 0, 2), ([2, 2, 3], 2, True, 0, 3),
       ([3], 5, True, 0, 2), ([2], 1, False, 0, 1), ([4, 3], 2, True, 1, 2), ([5], 1, False, 1, 1), ([2, 3, 2], 1, True, 1, 2),
       ([3, 2], 3, True, 1, 2), ([31], 1, True, 0, 6), ([5, 8], 2, True, 0, 4)]
LONG = {11: (9, 64), 12: (8, 90)}        # other block lengths and series
METHODS = {'op': {}, 'svd': {'svd': True}, 'conv': {}}
SEL = {'all': {}, 'band': {'T_lb': 1.2, 'T_ub': 2.1}, 'idx': {'freq_idx': [2]}, 'gap': {'freq_idx': [0, 2]}}
KINDS = ['real', 'complex', 'single']
TIMES = ['all', 'half', [0, 3, 20], [5], 'quarter']


def plan(tier, seed):
    ranks = [1, 2, 3, 4, 5] if tier == 'quick' else [1, 2, 3, 4, 5, 6, 7, 8]
    out = []
    for i in range(len(SRC)):
        for m in METHODS:
            r = ranks
            if tier == 'quick' and i in LONG:
                r = [2, 3]
            elif tier == 'quick' and i not in (2, 7):
                r = sorted(set(ranks[(i + (m == 'conv')) % 2::2] + [2]))
            out.append(('t_coeffs', [i, m, r]))
    return out


def make_fit(d, i, seed, kind):
    xshape, nv, axis, disk2, nm = SRC[i]
    n, nt = LONG.get(i, (6, 21))
    data = gen.field(seed, nt, xshape, nv, 'complex' if kind == 'complex' else 'real', axis)
    w = gen.wdict(gen.weights(seed, xshape, nv))
    p = api.params(n_dft=n, dt=0.5, xdim=len(xshape), nv=nv, savedir=d + '/fit', n_modes_save=nm, overlap=50,
                   dtype='single' if kind == 'single' else 'double')
    if not disk2:
        s = api.fit([data], p, w)
    else:
        import xarray as xr
        vs = ['u', 'p', 'w'][:nv]
        x = data if axis else data[..., None]
        f = d + '/in.nc'
        xr.Dataset({v: (('time',) + tuple('zyx'[:len(xshape)]), x[..., j]) for j, v in enumerate(vs)},
                   coords={'time': np.arange(21) * 0.5}).to_netcdf(f)
        p.update(savefreq_disk=False, savefreq_disk2=True)
        r = spmd.launch(2, spmd.fit, (api.Standard, [f], p, w, {'variables': vs}), root=d)
        if not r.ok():
            raise RuntimeError(r.describe())
        return data, r.values[0]['dir'], r.values[0]['n_freq']
    return data, s.savedir_sim, s.n_freq


def program(comm, data, res, method, sels, times, dtype, nf):
    '''all projections of one results folder; returns the values this rank reports.'''
    out = []
    fn = api.spod_utils.compute_coeffs_conv if method == 'conv' else api.spod_utils.compute_coeffs_op
    for k, (name, kw) in enumerate(sels):
        f, c = fn(data=data, results_dir=res, savedir=name, dtype=dtype, comm=comm, **dict(METHODS[method], **kw))
        t = times[k % len(times)]
        g, h = api.spod_utils.compute_reconstruction(coeffs_dir=c, time_idx=t, dtype=dtype, comm=comm)
        cf = np.load(f)
        g2, h2 = api.spod_utils.compute_reconstruction(coeffs_dir=c, time_idx=[1, 0], coeffs=2 * cf, savedir='sub',
                                                       filename='twice', dtype=dtype, comm=comm)
        out.append([os.path.relpath(q, res) for q in (f, c, g, h, g2, h2)])
    if method == 'op':
        nm = np.asarray(api.post.get_modes_at_freq(res, 1)).shape[-1]
        for fi in range(0, nf, 2):
            for a in range(nm):
                for b in range(nm):
                    flag, val = api.spod_utils.check_orthogonality(res, [a], [b], [fi], dtype=dtype, comm=comm)
                    out.append((bool(flag), complex(np.asarray(val).ravel()[0])))
    return out


def files(d, name):
    out = {}
    for b, _, fs in os.walk(d):
        for f in fs:
            q = os.path.join(b, f)
            r = os.path.relpath(q, d)
            if not r.startswith('coeffs'):
                continue
            if f.endswith('.npy'):
                out[r] = np.load(q)
            else:
                with open(q) as h:
                    out[r] = yaml.load(h, Loader=yaml.FullLoader)
    return out


def t_coeffs(ctx, i, method, ranks):
    rep = Rep()
    xshape, nv, axis, disk2, nm = SRC[i]
    for kind in KINDS:
        if disk2 and kind == 'complex':
            continue
        dtype = 'single' if kind == 'single' else 'double'
        tol = 1e-8 if kind != 'single' else 2e-3
        sels = list(SEL.items())
        if kind != 'real':
            sels = sels[:2]
        with quiet(), ctx.tmp() as d:
            data, res, nf = make_fit(d, i, ctx.seed, kind)
            if kind == 'single':
                data = data.astype(np.float32)
                if 2 * nm * nf > int(np.prod(xshape)) * nv:   # ill-posed in single precision
                    sels = [('idx', SEL['idx'])]
            times = TIMES[i % 5:] + TIMES[:i % 5]
            ser = d + '/ser'
            shutil.copytree(res, ser)
            exp = program(None, data, ser, method, sels, times, dtype, nf)
            fe = files(ser, 'ser')
            for n in ranks:
                par = d + '/par%d' % n
                shutil.copytree(res, par)
                env = spmd.ENVS[n % len(spmd.ENVS)]
                r = spmd.launch(n, program, (data, par, method, sels, times, dtype, nf), env=env, root=d)
                at = 'results %r, %s data, %s, %d ranks: ' % (SRC[i], kind, method, n)
                rep.case('%d/%s/%s/%d' % (i, kind, method, n), source=SRC[i], data=kind, method=method, ranks=n)
                rep.transitions += r.mpi_ops + len(r.events)
                rep.states += r.mpi_ops + len(r.events) + 1
                if not r.ok():
                    rep.bad('run', at + r.describe())
                    return rep
                for k, v in enumerate(r.values):
                    for q, (a, b) in enumerate(zip(v, exp)):
                        if isinstance(b, list):
                            if a != b:
                                rep.bad('paths', at + 'rank %d returned %r, serially %r' % (k, a, b))
                        elif a[0] != b[0] or not abs(a[1] - b[1]) <= max(tol, 1e-8):
                            rep.bad('orthogonality', at + 'rank %d: orthogonality %r, serially %r' % (k, a, b))
                    if len(v) != len(exp):
                        rep.bad('paths', at + 'rank %d: %d results instead of %d' % (k, len(v), len(exp)))
                fp = files(par, 'par')
                if set(fp) != set(fe):
                    rep.bad('files', at + 'files %r differ from the serial ones' % sorted(set(fp) ^ set(fe)))
                    return rep
                for f in sorted(fe):
                    a, b = fp[f], fe[f]
                    if isinstance(b, dict):
                        for q in set(a) | set(b):
                            if q not in ('coeffs_dir', 'savedir', 'results_folder') and a.get(q) != b.get(q):
                                rep.bad('params', at + '%s: %s is %r, serially %r' % (f, q, a.get(q), b.get(q)))
                    elif a.dtype != b.dtype:
                        rep.bad('dtype', at + '%s has dtype %s, serially %s' % (f, a.dtype, b.dtype))
                    elif not cmp.close(a, b, tol):
                        rep.bad('values', at + '%s: %s' % (f, cmp.err(a, b)))
                if rep.viol:
                    return rep
    return rep
