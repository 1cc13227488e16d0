'''C02: no deadlock, no mismatch, complete and schedule-independent results under every schedule.'''
import functools
import itertools
import os
import pickle
import shutil
import subprocess
import sys
import time

from mc import api, progs, sim  # noqa: F401 (imported before the ranks are forked)
from mc.core import Rep, VERIF, quiet

PROP = 'C02'
LEVEL = 'model_checking'
RULE = ('each SPMD program (fits, re-fits, block reuse, streaming, projections, reconstruction, orthogonality, POD, '
        'readers, array I/O) is explored with dynamic partial-order reduction over the file-system operations of its '
        'ranks, for every combination of MPI behaviours (rendezvous/buffered sends, early/late delivery, order of '
        'matching, reduction association, padded/unpadded messages); an execution is one complete schedule; every '
        'rank reads the result files right after the operation and its values are compared with those of the first '
        'schedule; selected programs are also run on the installed Open MPI and compared')
ASSUMPTIONS = ['a file operation (system call) is atomic; reads through memory maps are observed at open',
               'rank programs are deterministic apart from MPI and file operations']

# name, keyword arguments, input files
PROGS = {
    'std': ('std', {}, None),
    'std2': ('std', {'shape': (2, 3), 'nv': 2, 'n_modes_save': 2}, None),
    'std_empty': ('std', {'shape': (2,), 'overlap': 50}, None),
    'normw': ('std', {'normalize_weights': True, 'shape': (5,)}, None),
    'nodisk': ('std_nodisk', {}, None),
    'savefft': ('savefft', {}, None),
    'reuse': ('reuse', {}, None),
    'refit': ('refit', {}, None),
    'streaming': ('streaming', {}, None),
    'streaming2': ('streaming', {'n_modes_save': 2, 'overlap': 50, 'shape': (2, 2)}, None),
    'disk2': ('disk2', {'shape': (2, 2), 'n_modes_save': 2}, ('nc', [3, 6])),
    'disk2b': ('disk2', {'shape': (3, 1), 'n_modes_save': 1, 'nt': 12}, ('nc', [12])),
    'stream_mat': ('streaming', {'shape': (2, 3, 2), 'nv': 2, 'savefreq_disk': False}, ('mat', 8)),
    'coeffs': ('coeffs', {}, None),
    'conv': ('conv', {}, None),
    'ortho': ('ortho', {}, None),
    'pod': ('pod', {}, None),
    'npy0': ('npy', {}, None),
    'npy1': ('npy', {'axis': 1, 'dtype': 'complex64'}, None),
    'helpers': ('helpers', {}, None),
    'reader_nc': ('readers', {}, ('nc', [4, 6])),
    'reader_mat': ('readers', {'kind': 'mat', 'nv': 2}, ('mat', 5)),
    'mpi_api': ('mpi_api', {}, None),
}
FULL = {'p2p_send': ['rendezvous', 'eager'], 'p2p_deliver': ['late', 'early'], 'anysrc': ['low', 'high'], 'assoc': [1, -1]}
P2P = ('disk2', 'disk2b', 'stream_mat', 'reader_nc', 'reader_mat', 'mpi_api')
HEAVY = ('coeffs', 'conv', 'pod')
# what the conformance runs execute
REAL = ['mpi_api', 'std2', 'std_empty', 'normw', 'savefft', 'reuse', 'streaming', 'stream_mat', 'disk2', 'coeffs', 'conv', 'pod',
        'npy0', 'npy1', 'helpers', 'reader_nc', 'reader_mat']


def envs(name, n, tier):
    '''the MPI behaviours: all combinations where messages are exchanged, both associations elsewhere.'''
    keys = list(FULL) if name in P2P else ['assoc']
    out = [dict(zip(keys, v)) for v in itertools.product(*[FULL[k] for k in keys])]
    if name in ('reader_nc', 'reader_mat', 'disk2', 'stream_mat'):
        out += [dict(e, int32_max=6) for e in out] + [{'mpi_version': 4}, {'mpi_version': 4, 'int32_max': 6}]
    if tier == 'quick' and len(out) > 18:
        out = [e for i, e in enumerate(out) if i % 2 == 0 or 'mpi_version' in e]
    return out


def plan(tier, seed):
    items = []
    half = len(REAL) // 2
    for n in ((2, 3) if tier == 'quick' else (2, 3, 4)):
        items += [('t_real', [n, REAL[:half]]), ('t_real', [n, REAL[half:]])]
    for n in ((2, 3, 4) if tier == 'quick' else (2, 3, 4, 5)):
        for name in PROGS:
            es = envs(name, n, tier)
            if name in HEAVY:
                if tier == 'quick' and (n > 3 or n == 3 and name != 'conv'):
                    continue
                es = es[:1] if n > 2 else es
                items += [('t_explore', [name, n, es[i:i + 1]]) for i in range(len(es))]
            else:
                if name == 'disk2' and n > 2 and tier == 'quick':
                    es = es[::4] if n == 3 else []
                k = 6 if name != 'disk2' else 1
                items += [('t_explore', [name, n, es[i:i + k]]) for i in range(0, len(es), k)]
    items.sort(key=lambda it: (it[0] != 't_real', it[1][0] not in HEAVY + ('disk2',), it[1][0] in HEAVY))
    return items


def make(name, d):
    fn, kw, src = PROGS[name]
    kw = dict(kw)
    if src is not None:
        s = os.path.join(d, 'src')
        os.makedirs(s, exist_ok=True)
        if src[0] == 'nc':
            kw['src'] = progs.ncfiles(s, src[1], kw.get('shape', (3, 2)))[0]
        else:
            kw['src'] = progs.matfiles(s, src[1])[0]
    return fn, kw


def same(a, b, path='', tol=1e-9):
    '''None or where two results differ.'''
    import numpy as np
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return '%s: entries %r and %r' % (path, sorted(a), sorted(b))
        for k in a:
            r = same(a[k], b[k], '%s/%s' % (path, k), tol)
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return '%s: lengths %d and %d' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = same(x, y, '%s/%d' % (path, i), tol)
            if r:
                return r
        return None
    if isinstance(a, (np.ndarray, float, complex, np.number)) or isinstance(b, (np.ndarray, float, complex, np.number)):
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape:
            return '%s: shapes %r and %r' % (path, x.shape, y.shape)
        if x.dtype.kind in 'fc' and x.size:
            if not np.array_equal(np.isfinite(x), np.isfinite(y)):
                return '%s: not finite in the same places' % path
            f = np.isfinite(x)
            s = np.abs(x[f]).max() if f.any() else 0
            if f.any() and np.abs(x[f] - y[f]).max() > tol * s + 1e-12:
                return '%s: differ by %.3g' % (path, np.abs(x[f] - y[f]).max())
            return None
        return None if np.array_equal(x, y) else '%s: %r and %r' % (path, x, y)
    return None if a == b else '%s: %r and %r' % (path, a, b)


def t_explore(ctx, name, n, es):
    rep = Rep()
    with ctx.tmp() as base, quiet():
        fn, kw = make(name, base)
        first = None
        for env in es:
            dirs = [os.path.join(base, 'r')]

            def mk():
                shutil.rmtree(dirs[0], ignore_errors=True)
                os.mkdir(dirs[0])
                return sim.Sim(n, functools.partial(getattr(progs, fn), d=dirs[0], **kw), (), env, dirs[0])
            files0 = []
            at = 'program %s, %d ranks, MPI behaviour %r' % (name, n, env)

            def on(res, choices):
                nonlocal first
                rep.case('%s/%d/%s/%s' % (name, n, sorted(env.items()), ''.join(map(str, choices))), program=name,
                         ranks=n, env=env, choices=''.join(map(str, choices)))
                sched = ' schedule %s' % ''.join(map(str, choices))
                if not res.ok():
                    rep.bad('run', at + sched + ': ' + res.describe())
                    return True
                if res.leftover:
                    rep.bad('leftover', at + sched + ': %d message(s) were never received' % res.leftover)
                    return True
                if first is None:
                    first = res.values
                    for r in range(1, n):
                        w = None if name in ('reader_nc', 'mpi_api') else same(first[0], first[r], '', 1e-7)
                        if w:
                            rep.bad('ranks', at + ': rank %d has other results than rank 0: %s' % (r, w))
                            return True
                for r in range(n):
                    w = same(first[r], res.values[r], '', 1e-7)
                    if w:
                        rep.bad('schedule', at + sched + ': results on rank %d depend on the schedule: %s' % (r, w))
                        return True
                t = tree(dirs[0])
                if not files0:
                    files0.append(t)
                elif t != files0[0]:
                    rep.bad('files', at + sched + ': files depend on the schedule: %r / %r' % (files0[0], t))
                    return True
                return False
            st = sim.explore(mk, 600 if ctx.tier == 'quick' else 4000, on)
            rep.states += st['points'] + st['mpi_ops'] + 1
            rep.transitions += st['points'] + st['mpi_ops']
            rep.add('schedules', st['executions'])
            rep.add('schedules_pruned_as_equivalent', st['pruned'])
            rep.add('explorations')
            rep.add('explorations_complete', int(st['complete']))
            if rep.viol:
                return rep
    return rep


def tree(d):
    out = []
    for b, _, fs in os.walk(d):
        out += [os.path.relpath(os.path.join(b, f), d) for f in fs]
    return sorted(out)


MPIENV = dict(OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_btl='self,vader',
              OMPI_MCA_btl_vader_single_copy_mechanism='none', OMPI_MCA_plm_rsh_agent='/bin/false',
              OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_hwloc_base_binding_policy='none',
              MPI4PY_MPIABI='openmpi', OMPI_MCA_mpi_yield_when_idle='1', OMPI_MCA_orte_abort_on_non_zero_status='1')


def t_real(ctx, n, names):
    '''The same programs on the installed Open MPI; soft when it cannot be used.'''
    rep = Rep()
    mpiexec = shutil.which('mpiexec.openmpi') or '/usr/bin/mpiexec.openmpi'
    if not os.path.exists(mpiexec):
        rep.add('conformance_runs_unavailable')
        return rep
    with ctx.tmp() as base, quiet():
        specs, runs = [], []
        for i, name in enumerate(names):
            fn, kw = make(name, os.path.join(base, 'i%02d' % i))
            specs.append((fn, kw))
            os.mkdir(os.path.join(base, 'p%02d' % i))
        env = {k: v for k, v in os.environ.items() if not k.startswith(('OMPI_', 'PMIX_', 'MC_ENV'))}
        env.update(MPIENV)
        env['TMPDIR'] = base
        env.pop('PYTHONPATH', None)
        spec = os.path.join(base, 'spec.pkl')
        with open(spec, 'wb') as f:
            pickle.dump({'repo': os.environ.get('VERIF_REPO', '/repo'), 'verif': VERIF, 'programs': specs}, f)
        try:
            p = subprocess.Popen([mpiexec, '-n', str(n), sys.executable, os.path.join(VERIF, 'mc', 'realrun.py'), spec, base],
                                 env=env, cwd=base, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                 stderr=subprocess.DEVNULL, start_new_session=True)
        except OSError:
            rep.add('conformance_runs_unavailable')
            return rep
        try:
            p.wait(100)
        except subprocess.TimeoutExpired:
            import signal
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        real = []
        for r in range(n):
            try:
                real.append(pickle.load(open(os.path.join(base, 'res%d.pkl' % r), 'rb')))
            except (OSError, EOFError, pickle.UnpicklingError):
                real.append([])
        done = min(len(x) for x in real)
        if not done:
            rep.add('conformance_runs_unavailable')
            return rep
        for i, name in enumerate(names[:done]):
            if any(x[i][0] != 'done' for x in real):
                rep.add('conformance_programs_failed_on_real_mpi')
                break
            d = os.path.join(base, 's%02d' % i)
            os.mkdir(d)
            fn, kw = specs[i]
            s = sim.Sim(n, functools.partial(getattr(progs, fn), d=d, **kw), (), {}, d).run()
            if not s.ok():
                rep.bad('run', 'program %s on %d ranks: %s' % (name, n, s.describe()))
                return rep
            for r in range(n):
                w = same(s.values[r], real[r][i][1], '', 1e-6)
                if w:
                    rep.bad('conformance', 'program %s, rank %d of %d: Open MPI and the explored schedules disagree: %s' % (
                        name, r, n, w))
                    return rep
            rep.traces += 1
            rep.evals += 1
            rep.keys.add('real/%s/%d' % (name, n))
    return rep
