'''SPMD programs (run on every rank) whose schedules are explored, and that are also run on the real MPI.

Each returns a JSON-like structure of plain numpy values: what this rank returned and what it read back from the
results folder immediately after the operation.'''
import os
import numpy as np

from . import gen


def _api():
    from . import api
    return api


def _st(d, modes=True, names=()):
    api = _api()
    s = api.stored(d, modes)
    s['params'] = {k: v for k, v in s['params'].items() if k not in ('savedir', 'results_folder')}
    return s


def P(nt=10, shape=(3,), nv=1, axis=True):
    return gen.field(5, nt, shape, nv, 'real', axis or nv > 1), gen.wdict(gen.weights(5, shape, nv))


def _fit(comm, d, cls=None, shape=(3,), nv=1, nt=9, data=None, n_dft=4, xdim=None, kw=None, **o):
    api = _api()
    x, w = P(nt, shape, nv)
    o.setdefault('n_modes_save', 1)
    s = api.fit([x] if data is None else data, api.params(n_dft=n_dft, xdim=len(shape) if xdim is None else xdim,
                                                        nv=nv, savedir=d, **o), w, cls or api.Standard, comm, **(kw or {}))
    return s


def std(comm, d, **o):
    s = _fit(comm, d, **o)
    return [s.eigs, s.freq, _st(s.savedir_sim)]


def std_nodisk(comm, d):
    s = _fit(comm, d, savefreq_disk=False)
    return [s.eigs, s.freq, _st(s.savedir_sim, False)]


def savefft(comm, d, **o):
    s = _fit(comm, d, savefft=True, **o)
    b = os.path.join(s.savedir_sim, 'blocks')
    names = sorted(os.listdir(b))
    return [s.eigs, _st(s.savedir_sim), names, [np.load(os.path.join(b, n)) for n in names]]


def reuse(comm, d, **o):
    _fit(comm, d, savefft=True, **o)
    s = _fit(comm, d, reuse_blocks=True, **o)
    return [s.eigs, _st(s.savedir_sim)]


def refit(comm, d):
    _fit(comm, d, n_modes_save=2)
    s = _fit(comm, d, nt=10)
    return [s.eigs, _st(s.savedir_sim)]


def streaming(comm, d, src=None, **o):
    api = _api()
    s = _fit(comm, d, cls=api.Streaming, data=src, **o)
    return [s.eigs, s.freq, _st(s.savedir_sim)]


def disk2(comm, d, src=None, **o):
    o.setdefault('nt', 9)
    s = _fit(comm, d, data=src, kw={'variables': ['p']}, savefreq_disk=False, savefreq_disk2=True, **o)
    return [s.eigs, s.freq, _st(s.savedir_sim)]


def coeffs(comm, d, **o):
    s = _fit(comm, d, **o)
    x, w = P(o.get('nt', 9), o.get('shape', (3,)), o.get('nv', 1))
    f, c = s.compute_coeffs_op(x, s.savedir_sim)
    out = [np.load(f), np.load(os.path.join(c, 'modes_r.npy')), np.load(os.path.join(c, 'ltm.npy'))]
    f2, _ = s.compute_reconstruction(c, 'all')
    return out + [np.load(f2), os.path.relpath(f2, d)]


def conv(comm, d, **o):
    import pyspod.spod.utils as u
    s = _fit(comm, d, n_modes_save=2, **o)
    x, w = P(o.get('nt', 9), o.get('shape', (3,)), o.get('nv', 1))
    f, c = u.compute_coeffs_conv(x, s.savedir_sim, comm=comm, savedir='cv')
    out = [np.load(f), np.load(os.path.join(c, 'modes_r.npy')), np.load(os.path.join(c, 'ltm.npy'))]
    f2, _ = u.compute_reconstruction(c, [0, 3], comm=comm, savedir='rec', filename='r')
    return out + [np.load(f2), os.path.relpath(f2, d)]


def ortho(comm, d, **o):
    import pyspod.spod.utils as u
    s = _fit(comm, d, n_modes_save=2, **o)
    r = [u.check_orthogonality(s.savedir_sim, [i], [j], [1], comm=comm) for i, j in ((0, 0), (0, 1))]
    return [[bool(a), np.abs(b) > .5] for a, b in r]


def pod(comm, d, shape=(2, 3), n=2):
    api = _api()
    x = gen.field(6, 6, shape, 1, 'real', False)
    p = api.params(xdim=len(shape), nv=1, savedir=d, n_modes_save=n)
    s = api.POD(params=p, weights=None, comm=comm)
    s.fit([x])
    out = [s.eigs, np.abs(np.load(os.path.join(s._savedir_sim if hasattr(s, '_savedir_sim') else d, 'modes.npy')))]
    f, c = s.compute_coeffs_op(x, s._savedir_sim)
    out += [np.abs(np.load(f))]
    f2, _ = s.compute_reconstruction(c, time_idx='all')
    return out + [np.load(f2)]


def npy(comm, d, shape=(4, 3), axis=0, dtype='float64'):
    import pyspod.utils.parallel as par
    x = np.arange(np.prod(shape)).reshape(shape).astype(dtype) + 1
    part = par.distribute_dimension(x, axis, comm)
    f = os.path.join(d, 'a.npy')
    par.npy_save(comm, f, part, axis=axis)
    comm.Barrier()
    whole = np.load(f)
    back = par.npy_load(comm, f, axis=axis)
    comm.Barrier()
    par.npy_save(comm, f, part[..., :1] if axis == 0 else part[:1], axis=axis)
    comm.Barrier()
    return [whole, np.array_equal(back, part), np.load(f)]


def helpers(comm, d):
    import pyspod.utils.parallel as par
    x = np.arange(12.).reshape(4, 3)
    a, ax, sh = par.distribute(x, comm)
    s = par.allreduce(np.array([float(np.sum(a))]), comm)
    v, m, n = par.pvar(a.copy(), comm)
    nd, me, sub = par.create_subcomm(comm)
    t = sub.allreduce(1)
    sub.Free()
    return [int(ax), tuple(sh), s, v, m, int(n), int(nd), int(t)]


def readers(comm, d, src=None, kind='nc', nv=1, vs=('p',)):
    import pyspod.utils.reader as rd
    out = []
    if kind == 'nc':
        r = rd.reader_2stage(src, 2, np.float64, comm, nv, list(vs))
    else:
        r = rd.reader_mat(src, 3, np.float64, comm, nv)
    a = r.get_data()
    part = np.concatenate([a[k]['v'] for k in a])
    b = r.get_data(2)
    from mpi4py import MPI
    sizes = comm.allgather(part.shape[1])
    whole = comm.allgather(part)
    one = comm.allgather(b)
    return [sizes, np.concatenate(whole, axis=1), np.concatenate(one, axis=1), int(r.nt)]


def mpi_api(comm, d):
    '''The MPI calls the code uses, one by one (conformance of the simulated MPI).'''
    from mpi4py import MPI
    r, n = comm.rank, comm.size
    out = []
    a = np.arange(4.) + r
    b = np.zeros(4)
    comm.Allreduce(a, b, op=MPI.SUM)
    out.append(b.copy())
    c = np.array(r + 1, dtype=np.int64)
    e = np.empty_like(c)
    comm.Scan(c, e, op=MPI.SUM)
    out.append(int(e))
    out.append(comm.allreduce(r + 1.5, op=MPI.MIN))
    out.append(comm.allreduce((r, [r]), op=lambda x, y: (x[0] + y[0], x[1] + y[1])))
    out.append(comm.allreduce(r + 1, op=MPI.MAX))
    out.append(comm.bcast({'x': r}, root=n - 1))
    out.append(comm.reduce(r, op=MPI.SUM, root=0))
    out.append(comm.gather(r * r, root=0))
    out.append(comm.allgather(('k', r)))
    o = np.array(r * 10, dtype=np.int64)
    comm.Bcast(o, root=0)
    out.append(int(o))
    g = np.zeros(n, dtype=np.int64)
    comm.Allgather(np.array(r + 7), g)
    out.append(g)
    # vector gather with a derived type and displacements worked out from the counts
    ft = MPI.DOUBLE.Create_contiguous(2).Commit()
    send = np.full((r + 1, 2), float(r))
    recv = np.zeros((n * (n + 1) // 2, 2))
    reqs = [comm.Igatherv(sendbuf=[send, ft], recvbuf=[recv, (np.arange(1, n + 1), None), ft] if k == r else None, root=k)
            for k in range(n)]
    MPI.Request.Waitall(reqs)
    out.append(recv.copy())
    # point to point with derived types, a receive buffer longer than the message, and to itself
    rb = np.zeros((n, 6))
    reqs = [comm.Irecv([rb[k:], MPI.DOUBLE], source=k) for k in range(n)]
    sb = [np.arange(4.) + 10 * r + k for k in range(n)]
    reqs += [comm.Isend([sb[k], ft], dest=k) for k in range(n)]
    MPI.Request.Waitall(reqs)
    ft.Free()
    out.append(rb.copy())
    cart = comm.Create_cart((n, 1))
    out.append((list(cart.Get_coords(r)), MPI.Compute_dims(n, 2)))
    sub = cart.Sub([True, False])
    out.append(sub.allreduce(1))
    cart.Free()
    sub.Free()
    # file views
    f = MPI.File.Open(comm, os.path.join(d, 'v.bin'), MPI.MODE_CREATE | MPI.MODE_WRONLY)
    f.Set_size(0)
    if r == 0:
        f.Write(b'HEADER')
    t = MPI.INT.Create_subarray(sizes=[2, n], subsizes=[2, 1], starts=[0, r], order=MPI.ORDER_C).Commit()
    f.Set_view(disp=6, etype=MPI.INT, filetype=t)
    f.Write_all(np.array([[r], [r + 100]], dtype=np.int32))
    f.Sync()
    f.Close()
    comm.Barrier()
    with open(os.path.join(d, 'v.bin'), 'rb') as fh:
        out.append(fh.read())
    f = MPI.File.Open(comm, os.path.join(d, 'v.bin'), MPI.MODE_RDONLY)
    f.Set_view(disp=6, etype=MPI.INT, filetype=t)
    x = np.zeros((2, 1), dtype=np.int32)
    f.Read_all(x)
    out.append(x)
    f.Close()
    t.Free()
    out.append(MPI.VERSION)
    return out


def ncfiles(d, splits, shape=(3, 2), nv=1, xdtype='f8', vs=('p',), seed=5):
    '''netCDF files with the given numbers of time steps; returns (paths, data (nt, *shape, nv)).'''
    import xarray as xr
    nt = sum(splits)
    x = gen.field(seed, nt, shape, nv, 'real', True)
    out, t = [], 0
    for i, n in enumerate(splits):
        dims = ('time',) + tuple('xyz'[:len(shape)])
        ds = xr.Dataset({v: (dims, x[t:t + n, ..., k].astype(xdtype)) for k, v in enumerate(vs)},
                        coords={'time': np.arange(t, t + n) * 0.5})
        p = os.path.join(d, 'in%02d.nc' % i)
        ds.to_netcdf(p)
        out.append(p)
        t += n
    return out, x


def matfiles(d, nt, shape=(2, 3, 2), nv=2, dtype='f8', seed=5):
    import h5py
    x = gen.field(seed, nt, shape, nv, 'real', True)
    out = []
    for t in range(nt):
        p = os.path.join(d, 'm%03d.mat' % t)
        with h5py.File(p, 'w') as f:
            f['q'] = np.moveaxis(x[t], -1, 0).astype(dtype)
        out.append(p)
    return out, x
