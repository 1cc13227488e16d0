'''C30: configuration and data files are read completely and unchanged.'''
import itertools
import os
import sys
import numpy as np
import yaml

from mc import api, gen, spmd
from mc.core import Rep, quiet

PROP = 'C30'
LEVEL = 'model_checking'
RULE = ('every subset and several orders of required keys x every kind of optional section (absent, empty, null, every subset '
        'of keys) x layouts (one key per item, several, mapping style written by hand) x value types; data files of every '
        'format x element type x shape x way of naming the format, read serially and on ranks; other formats refused')
REQ = {'time_step': 0.1, 'n_space_dims': 2, 'n_variables': 1, 'n_dft': 64}
OPT = {'overlap': 50, 'mean_type': 'blockwise', 'normalize_weights': False, 'savedir': 'a b/c', 'conf_level': 0.95, 'reuse_blocks': True,
       'list': [1, 2.5, 'x'], 'nothing': None, 'dtype': 'double'}


def plan(tier, seed):
    return [('t_config', [p, 8]) for p in range(8)] + [('t_cmdline', [])] + [('t_data', [k]) for k in ('npy', 'nc', 'mat')] + [('t_refuse', [])]


def items(d, layout):
    ks = list(d)
    if layout == 'one':
        return [{k: d[k]} for k in ks]
    if layout == 'all':
        return [dict(d)] if d else []
    return [{k: d[k] for k in ks[i:i + 2]} for i in range(0, len(ks), 2)]     # two per item


def t_config(ctx, part, parts):
    rep = Rep()
    opts = [('absent', {}), ('empty', {}), ('null', {}), ('list', {})]
    ok = list(OPT)
    for r in range(1, len(ok) + 1):
        for c in itertools.combinations(ok, r):
            if ctx.tier == 'quick' and 3 < r < len(ok) - 1:
                continue
            opts.append(('keys', {k: OPT[k] for k in c}))
    n = 0
    with ctx.tmp() as d:
        path = d + '/c.yaml'
        for perm in itertools.permutations(REQ):
            for i, (kind, o) in enumerate(opts):
                n += 1
                if n % parts != part or (ctx.tier == 'quick' and i > 30 and n // parts % 6):
                    continue
                layout = ('one', 'one', 'all', 'two')[n // parts % 4]
                req = {k: REQ[k] for k in perm}
                o = dict(sorted(o.items(), key=lambda t: (n * 7 + len(t[0]) * 13) % 11))
                doc = {'required': items(req, layout)}
                if kind == 'empty':
                    text = yaml.dump(doc) + 'optional:\n'
                elif kind == 'null':
                    text = 'optional: null\n' + yaml.dump(doc)
                elif kind == 'absent':
                    text = yaml.dump(doc)
                else:
                    doc['optional'] = items(o, layout)
                    text = yaml.dump(doc, sort_keys=False, default_flow_style=(True, False, None)[n % 3])
                with open(path, 'w') as f:
                    f.write(text)
                rep.case('config/%r/%s/%r/%s' % (perm, kind, sorted(o), layout), text=text)
                check(rep, text, path, dict(req, **o))
                if rep.viol:
                    return rep
    return rep


def check(rep, text, path, exp):
    with quiet():
        got = api.pio.read_config(path)
    with open(path) as f:
        if f.read() != text:
            rep.bad('file', 'the configuration file was changed')
    if dict(got) != exp or any(type(got[k]) is not type(exp[k]) for k in exp):
        rep.bad('config', 'configuration\n%s\nread as %r' % (text, got))


def t_cmdline(ctx):
    rep = Rep()
    old = sys.argv
    with ctx.tmp() as d:
        try:
            for name in ('c.yaml', 'a b.yml', 'x.cfg'):
                exp = dict(REQ, **{'overlap': 25})
                text = yaml.dump({'required': items(REQ, 'one'), 'optional': items({'overlap': 25}, 'one')})
                with open(os.path.join(d, name), 'w') as f:
                    f.write(text)
                for argv in (['p', '--config_file', os.path.join(d, name)], ['p', '--config_file=' + os.path.join(d, name)]):
                    rep.case('cmd/%s/%d' % (name, len(argv)), argv=argv)
                    sys.argv = argv
                    with quiet():
                        got = api.pio.read_config()
                    if dict(got) != exp:
                        rep.bad('config', '%r read as %r' % (argv, got))
                    sys.argv = ['p', '--other']
                    with quiet():
                        got = api.pio.read_config(os.path.join(d, name))
                    if dict(got) != exp:
                        rep.bad('config', 'file given by name read as %r' % (got,))
        finally:
            sys.argv = old
    return rep


SHAPES = [(5,), (1,), (3, 2), (2, 3, 4), (2, 1, 3, 2), (1, 4), (4, 1)]
TYPES = ['f8', 'f4', 'i4', 'i8', '>f8', 'c16']


def rd(comm, f, fmt):
    d = api.pio.read_data(f, format=fmt, comm=comm)
    if isinstance(d, dict):
        return {k: np.array(v) for k, v in d.items()}
    if hasattr(d, 'data_vars'):
        out = {k: np.array(d[k].values) for k in d.variables}
        d.close()
        return out
    return {'': np.array(d)}


def t_data(ctx, kind):
    rep = Rep()
    import h5py
    import xarray as xr
    r = gen.rng('c30', ctx.seed)
    with ctx.tmp() as d, quiet():
        for si, shape in enumerate(SHAPES):
            for ty in TYPES:
                if kind == 'nc' and ty == 'c16' or kind == 'nc' and ty == '>f8':
                    continue
                a = (r.standard_normal(shape) * 9).astype(ty) if ty[-2:] != '16' else (r.standard_normal(shape) + 1j * r.standard_normal(shape))
                b = np.arange(3.0) + si
                for ext in (kind, kind.upper(), 'dat', ''):
                    base = os.path.join(d, 'f.x_%d%s.%s' % (si, ty.strip('>'), ext)) if ext else os.path.join(d, 'noext%d' % si)
                    if kind == 'npy':
                        with open(base, 'wb') as f:
                            np.save(f, a if si % 2 else np.asfortranarray(a))
                        exp = {'': a}
                    elif kind == 'nc':
                        dims = ['d%d' % i for i in range(a.ndim)]
                        xr.Dataset({'u': (dims, a), 'b': (['k'], b)}, coords={'d0': np.arange(shape[0]) * 0.5}).to_netcdf(base, engine='netcdf4')
                        exp = {'u': a, 'b': b, 'd0': np.arange(shape[0]) * 0.5}
                    else:
                        with h5py.File(base, 'w') as h:
                            h['u'], h['b'], h['s'] = a, b, 2.5
                        exp = {'u': a, 'b': b, 's': np.array(2.5)}
                    for fmt in ([None] if ext in (kind, kind.upper()) else []) + [kind, '.' + kind, kind.upper()]:
                        for n in ((0, 2) if si == 2 and ty == 'f8' else (0,)):
                            rep.case('data/%s/%d/%s/%s/%s/%d' % (kind, si, ty, ext, fmt, n), kind=kind, shape=shape, dtype=ty, extension=ext, format=fmt)
                            at = '%s file %s, type %s, shape %r, format %r: ' % (kind, os.path.basename(base), ty, shape, fmt)
                            if n:
                                q = spmd.launch(n, rd, (base, fmt), root=d)
                                if not q.ok():
                                    rep.bad('run', at + q.describe())
                                    return rep
                                got = q.values
                            else:
                                got = [rd(None, base, fmt)]
                            for g in got:
                                if set(g) != set(exp):
                                    rep.bad('keys', at + 'entries %r' % sorted(g))
                                for k in set(exp) & set(g):
                                    if g[k].shape != exp[k].shape or g[k].dtype.newbyteorder('=') != exp[k].dtype.newbyteorder('=') \
                                            or not np.array_equal(g[k], exp[k]):
                                        rep.bad('data', at + 'entry %r differs from what was stored' % k)
                            if rep.viol:
                                return rep
                    os.remove(base)
    return rep


def t_refuse(ctx):
    rep = Rep()
    with ctx.tmp() as d, quiet():
        for name, fmt in [('a.txt', None), ('a.npz', None), ('a', None), ('a.csv', None), ('a.npy.bak', None), ('a.npy', 'txt'), ('a.nc', 'nc4x'),
                          ('a.mat', 'm'), ('npy', None), ('a.xnpy', None)]:
            f = os.path.join(d, name)
            with open(f, 'wb') as h:
                np.save(h, np.arange(3))
            rep.case('refuse/%s/%s' % (name, fmt), file=name, format=fmt)
            try:
                v = api.pio.read_data(f, format=fmt)
            except Exception:  # noqa
                continue
            rep.bad('refuse', 'file %s with format %r was read as %r' % (name, fmt, v))
        for name in ('gone.npy', 'gone.nc', 'gone.mat'):
            rep.case('missing/' + name)
            try:
                api.pio.read_data(os.path.join(d, name))
            except Exception:  # noqa
                continue
            rep.bad('missing', 'a missing file was read')
    return rep
