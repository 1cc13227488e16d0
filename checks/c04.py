'''C04: saving and loading distributed arrays is a faithful round trip.'''
import itertools
import os
import numpy as np

from mc import api, spmd
from mc.core import Rep, quiet

PROP = 'C04'
LEVEL = 'model_checking'
RULE = ('save: every way to spread an axis of 1..5 entries over 1..5 ranks, crossed with axis and shape; every element '
        'type x memory layout x older file; load: every element type x file order x axis x shape x rank count, balanced '
        'and every explicit spread; bytes of the file and every part are compared with plain NumPy')
ASSUMPTIONS = ['MPI is simulated (mc/fake/mpi4py, mc/sim.py); conformance with the installed Open MPI is checked by C02']

DTYPES = ['<f8', '<f4', '<c16', '<c8', '<i8', '<i4', '<i2', '|i1', '|u1', '<u4', '>f8', '>f4', '>c16', '>c8', '>i4', '>i2']
LAYOUT = ['C', 'F', 'strided', 'reversed', 'transposed']
OLD = ['none', 'longer', 'shorter', 'other']
SHAPES = [((5,), 0), ((4, 3), 0), ((4, 3), 1), ((2, 3, 4), 0), ((2, 3, 4), 1), ((2, 3, 4), 2), ((3, 1, 2, 2), 0),
          ((1, 5), 1), ((5, 1), 0), ((2, 4), -1), ((1,), 0), ((1, 1, 3), 2),
          # long axes, many axes (long header)
          ((1003,), 0), ((97, 41), 0), ((7, 211), 1), ((3, 129, 5), 1), ((1,) * 9 + (2, 1, 3), 11), ((2,) + (1,) * 20 + (3,), 0)]


def compositions(total, n):
    if n == 1:
        yield (total,)
        return
    for k in range(total + 1):
        for r in compositions(total - k, n - 1):
            yield (k,) + r


def spreads(total, n):
    '''every way to spread an axis; of a long axis the balanced one and very uneven ones'''
    if total <= 5:
        return list(compositions(total, n))
    out = {balanced(total, n), balanced(total, n)[::-1], (total,) + (0,) * (n - 1), (0,) * (n - 1) + (total,)}
    if n > 1:
        out |= {(1,) * (n - 1) + (total - n + 1,), (total - 2,) + (0,) * (n - 2) + (2,)}
    return sorted(out)


def balanced(N, n):
    return tuple(N // n + (1 if r < N % n else 0) for r in range(n))


def make(shape, dt):
    x = np.arange(int(np.prod(shape))).reshape(shape) % (100 if np.dtype(dt).itemsize < 4 else 100003) + 1
    if np.dtype(dt).kind == 'c':
        x = x - 1j * (x + 0.5)
    return x.astype(dt)


def lay(a, layout):
    if layout == 'C':
        return np.ascontiguousarray(a)
    if layout == 'F':
        return np.asfortranarray(a)
    if layout == 'strided':
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), a.dtype)
        b[..., ::2] = a
        return b[..., ::2]
    if layout == 'reversed':
        return np.ascontiguousarray(a[::-1])[::-1]
    return np.ascontiguousarray(a.T).T


def take(x, axis, counts, rank):
    s = sum(counts[:rank])
    idx = [slice(None)] * x.ndim
    idx[axis] = slice(s, s + counts[rank])
    return x[tuple(idx)]


def old_file(path, x, old):
    if old == 'longer':
        np.save(path, np.full(x.size * 3 + 50, 9.5))
    elif old == 'shorter':
        np.save(path, np.zeros(1, 'i1'))
    elif old == 'other':
        with open(path, 'wb') as f:
            f.write(b'not an array' * 100)


def save_program(comm, cases, d):
    out = []
    for i, (si, dt, layout, counts, old) in enumerate(cases):
        shape, axis = SHAPES[si]
        part = lay(take(make(shape, dt), axis, counts, comm.rank), layout)
        keep = part.copy()
        api.par.npy_save(comm, os.path.join(d, '%d.npy' % i), part, axis=axis)
        out.append(bool(np.array_equal(keep, part)))
    return out


def load_program(comm, cases, d):
    out = []
    for i, (si, dt, order, counts) in enumerate(cases):
        shape, axis = SHAPES[si]
        kw = {} if counts is None else {'count': counts[comm.rank]}
        if axis != 0:
            kw['axis'] = axis
        out.append(api.par.npy_load(comm, os.path.join(d, '%d.npy' % i), **kw))
    return out


def save_cases(n, tier):
    base = LAYOUT.index
    for si, (s, a) in enumerate(SHAPES):
        for c in spreads(s[a], n):
            yield (si, '<f8', 'C', c, 'none')
    for si, dt, l in itertools.product((1, 4, 5), DTYPES, LAYOUT):
        s, a = SHAPES[si]
        yield (si, dt, l, balanced(s[a], n), OLD[(base(l) + DTYPES.index(dt)) % 4])
        if tier != 'quick':
            for c in compositions(s[a], n):
                yield (si, dt, l, c, OLD[(base(l) + sum(c[:1])) % 4])
    for si, old in itertools.product(range(len(SHAPES)), OLD):
        s, a = SHAPES[si]
        yield (si, '<f8', 'C', balanced(s[a], n), old)
        yield (si, '<c8', 'F', balanced(s[a], n)[::-1], old)


def load_cases(n, tier):
    for si, (s, a) in enumerate(SHAPES):
        for order in 'CF':
            yield (si, '<f8', order, None)
            for c in spreads(s[a], n):
                yield (si, '<f8', order, c)
    for si, dt, order in itertools.product(range(len(SHAPES)), DTYPES, 'CF'):
        s, a = SHAPES[si]
        yield (si, dt, order, None)
        yield (si, dt, order, balanced(s[a], n)[::-1])


CHUNK = 150


def plan(tier, seed):
    items = []
    for n in range(0, 6 if tier == 'quick' else 8):
        for kind, gen in (('t_save', save_cases), ('t_load', load_cases)):
            k = len(list(gen(max(n, 1), tier)))
            items += [(kind, [n, i]) for i in range(0, k, CHUNK)]
    return items


def t_save(ctx, n, at):
    rep = Rep()
    cases = list(save_cases(max(n, 1), ctx.tier))[at:at + CHUNK]
    with quiet(), ctx.tmp() as d:
        for i, (si, dt, l, c, old) in enumerate(cases):
            old_file(os.path.join(d, '%d.npy' % i), make(SHAPES[si][0], dt), old)
        if n == 0:
            out = [True] * len(cases)
            for i, (si, dt, l, c, old) in enumerate(cases):
                api.par.npy_save(None, os.path.join(d, '%d.npy' % i), lay(make(SHAPES[si][0], dt), l), axis=SHAPES[si][1])
        else:
            r = spmd.launch(n, save_program, (cases, d), env=spmd.ENVS[n % 2], root=d)
            rep.transitions += r.mpi_ops + len(r.events)
            rep.states += r.mpi_ops + 1
            if not r.ok():
                rep.bad('run', 'saving on %d ranks: %s' % (n, r.describe()))
                return rep
            out = [all(v) for v in zip(*r.values)]
        for i, (si, dt, l, c, old) in enumerate(cases):
            x = make(SHAPES[si][0], dt)
            what = 'save on %s ranks: shape %r, axis %d, type %s, layout %s, spread %r, older file %s: ' % (
                n or 'no', *SHAPES[si], dt, l, c, old)
            rep.case(what, nontrivial=n > 1 or old != 'none')
            p = os.path.join(d, '%d.npy' % i)
            try:
                y = np.load(p)
                with open(p, 'rb') as f:
                    v = np.lib.format.read_magic(f)
                    h = (np.lib.format.read_array_header_1_0 if v == (1, 0) else np.lib.format.read_array_header_2_0)(f)
                    extra = os.path.getsize(p) - f.tell() - int(np.prod(h[0])) * h[2].itemsize
            except Exception as e:
                rep.bad('file', what + 'the file is not readable: %r' % e)
                return rep
            if y.dtype.newbyteorder('=') != x.dtype.newbyteorder('=') or y.shape != x.shape or not np.array_equal(x, y):
                rep.bad('value', what + 'the file holds another array (%s %r)' % (y.dtype, y.shape))
                return rep
            if extra:
                rep.bad('size', what + '%d bytes after the array' % extra)
                return rep
            if not out[i]:
                rep.bad('input', what + 'the array passed was modified')
                return rep
    return rep


def t_load(ctx, n, at):
    rep = Rep()
    cases = list(load_cases(max(n, 1), ctx.tier))[at:at + CHUNK]
    with quiet(), ctx.tmp() as d:
        for i, (si, dt, order, c) in enumerate(cases):
            np.save(os.path.join(d, '%d.npy' % i), np.asarray(make(SHAPES[si][0], dt), order=order))
        if n == 0:
            vals = [[api.par.npy_load(None, os.path.join(d, '%d.npy' % i), axis=SHAPES[c[0]][1]) for i, c in enumerate(cases)]]
        else:
            r = spmd.launch(n, load_program, (cases, d), env=spmd.ENVS[n % 2], root=d)
            rep.transitions += r.mpi_ops + len(r.events)
            rep.states += r.mpi_ops + 1
            if not r.ok():
                rep.bad('run', 'loading on %d ranks: %s' % (n, r.describe()))
                return rep
            vals = r.values
        for i, (si, dt, order, c) in enumerate(cases):
            x = make(SHAPES[si][0], dt)
            axis = SHAPES[si][1]
            what = 'load on %s ranks: shape %r, axis %d, type %s, order %s, parts %r: ' % (
                n or 'no', *SHAPES[si], dt, order, 'default' if c is None else c)
            rep.case(what, nontrivial=n > 1)
            cc = c if c is not None and n else balanced(x.shape[axis], max(n, 1))
            for r in range(max(n, 1)):
                e, g = take(x, axis, cc, r), vals[r][i]
                if g.shape != e.shape or g.dtype.newbyteorder('=') != e.dtype.newbyteorder('=') or not np.array_equal(g, e):
                    rep.bad('value', what + 'rank %d received shape %r, type %s instead of %r or other values' % (
                        r, g.shape, g.dtype, e.shape))
                    return rep
            y = np.load(os.path.join(d, '%d.npy' % i))
            if not np.array_equal(x, y):
                rep.bad('file', what + 'loading changed the file')
    return rep
