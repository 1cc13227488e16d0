'''C03: the parts given to the ranks are an exact, balanced, ordered partition.'''
import itertools
import numpy as np

from mc import api, spmd
from mc.core import Rep, quiet

PROP = 'C03'
LEVEL = 'model_checking'
RULE = ('every array shape of the alphabet x every rank count x every distribution function x every axis it may be '
        'asked for; all ranks run the real code on the simulated MPI and the parts are put together again')
ASSUMPTIONS = ['MPI is simulated (mc/fake/mpi4py, mc/sim.py); conformance with the installed Open MPI is checked by C02']


def shapes(tier):
    big = 9 if tier == 'quick' else 14
    out = [(i,) for i in range(1, big + 1)]
    out += list(itertools.product(range(1, 6 if tier == 'quick' else 8), repeat=2))
    out += list(itertools.product(range(1, 4 if tier == 'quick' else 5), repeat=3))
    out += list(itertools.product(range(1, 3 if tier == 'quick' else 4), repeat=4))
    out += [(2, 7, 3), (7, 2, 3), (2, 3, 7), (1, 9), (9, 1), (1, 1, 8), (1009,), (130, 3), (2, 257), (11, 2, 67), (3, 71, 2, 2)]
    return out


def plan(tier, seed):
    items = []
    for n in range(0, 10 if tier == 'quick' else 17):
        for k in range(3):
            items.append(('t_dist', [n, k]))
    items += [('t_big', [n]) for n in (3, 5, 6, 7)]
    items += [('t_sub', [n]) for n in range(1, 13 if tier == 'quick' else 25)]
    return items


BIG = 60000017, 33999999


def big(comm):
    out = []
    for x in (np.arange(BIG[0], dtype=np.int32), np.arange(2 * BIG[1], dtype=np.int32).reshape(2, -1)):
        y = api.par.distribute_dimension(x, x.ndim - 1, comm)
        z, ax, _ = api.par.distribute(x, comm)
        out.append([(v.shape, int(v[0, 0] if v.ndim > 1 else v[0]), int(v[0, -1] if v.ndim > 1 else v[-1])) for v in (y, z)] + [int(ax)])
    return out


def t_big(ctx, n):
    '''more points than single precision can count.'''
    rep = Rep()
    with quiet(), ctx.tmp() as d:
        r = spmd.launch(n, big, (), root=d)
    rep.transitions += r.mpi_ops
    if not r.ok():
        rep.bad('run', '%d ranks: %s' % (n, r.describe()))
        return rep
    for i, N in enumerate(BIG):
        for k in range(2):
            rep.case('big/%d/%d/%d' % (n, N, k), nontrivial=True, ranks=n, points=N)
            parts = [v[i][k] for v in r.values]
            nxt = 0
            for rank, (sh, a, b) in enumerate(parts):
                want = N // n + (rank < N % n)
                if sh[-1] != want or a != nxt or b != nxt + want - 1:
                    rep.bad('partition', '%d points, %d ranks: rank %d holds the %d points %d to %d instead of the %d from %d' % (
                        N, n, rank, sh[-1], a, b, want, nxt))
                    return rep
                nxt += want
    return rep


def sub(comm):
    n, k, c = api.par.create_subcomm(comm)
    return int(n), int(k), c.size, c.rank, c.allgather(comm.rank), c.allreduce(comm.rank), comm.allreduce(1)


def t_sub(ctx, n):
    '''groups of ranks: as many as reported, of the same size, each rank in one, in rank order.'''
    rep = Rep()
    with quiet(), ctx.tmp() as d:
        r = spmd.launch(n, sub, (), root=d)
    rep.case('groups/%d' % n, nontrivial=n > 1, ranks=n)
    rep.transitions += r.mpi_ops
    at = 'groups of %d ranks: ' % n
    if not r.ok():
        rep.bad('run', at + r.describe())
        return rep
    num = r.values[0][0]
    groups = {}
    for i, (m, k, size, rank, members, total, alln) in enumerate(r.values):
        groups.setdefault(k, []).append(i)
        if m != num or num * size != n or not 0 <= k < num or alln != n:
            rep.bad('groups', at + 'rank %d is in group %d of %d, of size %d' % (i, k, m, size))
            return rep
        if members != sorted(members) or members[rank] != i or total != sum(members):
            rep.bad('groups', at + 'rank %d has number %d in a group of ranks %r' % (i, rank, members))
            return rep
    for i, (m, k, size, rank, members, total, alln) in enumerate(r.values):
        if members != groups[k]:
            rep.bad('groups', at + 'group %d is %r for rank %d but has the ranks %r' % (k, members, i, groups[k]))
            return rep
    return rep


def make(s):
    return np.arange(int(np.prod(s)), dtype=float).reshape(s) + 1


def program(comm, shs):
    out = []
    for s in shs:
        x = make(s)
        keep = x.copy()
        r = {'dist': api.par.distribute(x, comm)}
        if len(s) > 1:
            r['data'] = api.par.distribute_data(x, comm)
        r['dim'] = [api.par.distribute_dimension(x, a, comm) for a in range(len(s))]
        if len(s) > 1:
            # as a time series: one variable without and with a trailing axis, several variables
            rd = [api.reader.reader_1stage([x], len(s) - 1, np.float64, comm, 1)]
            if len(s) > 2:
                rd.append(api.reader.reader_1stage([x], len(s) - 2, np.float64, comm, s[-1]))
            r['reader'] = [(int(q.max_axis), tuple(q.xshape), int(q.nx), np.array(q.get_data())) for q in rd]
        r['same'] = bool(np.array_equal(x, keep))
        out.append(r)
    return out


def partition(rep, at, x, parts, axis, n):
    if not 0 <= axis < x.ndim:
        rep.bad('axis', at + 'axis %r of an array of shape %r' % (axis, x.shape))
        return
    for r, p in enumerate(parts):
        if p.ndim != x.ndim or p.shape[:axis] + p.shape[axis + 1:] != x.shape[:axis] + x.shape[axis + 1:]:
            rep.bad('shape', at + 'rank %d holds shape %r of %r' % (r, p.shape, x.shape))
            return
    sizes = [p.shape[axis] for p in parts]
    if sum(sizes) != x.shape[axis] or not np.array_equal(np.concatenate(parts, axis=axis), x):
        rep.bad('partition', at + 'the parts (sizes %r along axis %d) do not make up the array of shape %r' % (
            sizes, axis, x.shape))
    elif max(sizes) - min(sizes) > 1 or sizes != sorted(sizes, reverse=True):
        rep.bad('balance', at + 'sizes %r along axis %d of shape %r' % (sizes, axis, x.shape))


def t_dist(ctx, n, part):
    rep = Rep()
    shs = shapes(ctx.tier)[part::3]
    with quiet(), ctx.tmp() as d:
        if n == 0:
            values = [program(None, shs)]
        else:
            r = spmd.launch(n, program, (shs,), env=spmd.ENVS[n % 2], root=d)
            rep.transitions += r.mpi_ops
            rep.states += r.mpi_ops + 1
            if not r.ok():
                rep.bad('run', '%d ranks: %s' % (n, r.describe()))
                return rep
            values = r.values
    for i, s in enumerate(shs):
        x = make(s)
        vs = [v[i] for v in values]
        at = '%s ranks, shape %r: ' % (n or 'no', s)
        rep.case('%r/%d' % (s, n), nontrivial=n > 1, shape=s, ranks=n)
        if not all(v['same'] for v in vs):
            rep.bad('input', at + 'the distributed array was modified')
        for name, sp in (('dist', s), ('data', s[1:])):
            if name not in vs[0]:
                continue
            for v in vs:
                a, ax, sh = v[name]
                if tuple(sh) != tuple(sp) or sp[ax] != max(sp) or ax != vs[0][name][1]:
                    rep.bad('axis', at + '%s: axis %r, shape %r reported for %r' % (name, ax, sh, sp))
                    return rep
            partition(rep, at + name + ': ', x, [v[name][0] for v in vs], int(vs[0][name][1]) + (name == 'data'), n)
        for a in range(len(s)):
            partition(rep, at + 'dimension %d: ' % a, x, [v['dim'][a] for v in vs], a, n)
        for k in range(len(vs[0].get('reader', []))):
            ax, xs, nx, _ = vs[0]['reader'][k]
            sp = s[1:] if k == 0 else s[1:-1]
            if xs != sp or nx != np.prod(sp) or not 0 <= ax < len(sp) or sp[ax] != max(sp):
                rep.bad('reader', at + 'time series of spatial shape %r: axis %d, spatial shape %r, %d points' % (sp, ax, xs, nx))
                return rep
            partition(rep, at + 'time series: ', x.reshape((s[0],) + sp + (-1,)), [v['reader'][k][3] for v in vs], ax + 1, n)
        if rep.viol:
            return rep
    return rep
