'''Runner shared by all checks.

A check module (checks/<id>.py) defines
  PROP, LEVEL, RULE            identification and how cases are made
  plan(tier, seed)             -> list of (function name, args) work items (args JSON-able)
  t_<...>(ctx, *args)          work functions; they return a Rep
Everything a work item needs is in its arguments, so a violation is replayed by
running that one item again (check.py --replay FILE).
'''
import contextlib
import hashlib
import importlib
import io
import json
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get('VERIF_JOBS', 0)) or min(8, len(os.sched_getaffinity(0)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')
ITEM_TIMEOUT = 240


class Rep:
    '''What one work item did.'''

    def __init__(self):
        self.evals = 0            # executions / comparisons made
        self.states = 0
        self.transitions = 0
        self.keys = set()         # distinct non-trivial cases
        self.viol = []            # (finding key, message)
        self.samples = []
        self.extra = {}           # summed counters
        self.traces = 0

    def case(self, key, nontrivial=True, **sample):
        self.evals += 1
        if nontrivial:
            self.keys.add(key if isinstance(key, str) else json.dumps(key, default=str, sort_keys=True))
        if sample and len(self.samples) < 2:
            self.samples.append({'case': key, **sample})

    def bad(self, key, msg):
        self.viol.append((str(key), str(msg)[:1500]))

    def add(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n


class Ctx:
    def __init__(self, scratch, tier, seed):
        self.scratch, self.tier, self.seed = scratch, tier, seed
        self._n = 0

    def dir(self, tag='d'):
        self._n += 1
        d = os.path.join(self.scratch, '%s%d' % (tag, self._n))
        os.makedirs(d)
        return d

    @contextlib.contextmanager
    def tmp(self, tag='d'):
        d = self.dir(tag)
        try:
            yield d
        finally:
            shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(_Null()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        import numpy as np
        with np.errstate(all='ignore'):
            yield


class _Null(io.TextIOBase):
    def write(self, s):
        return len(s)


class ItemTimeout(BaseException):
    pass


def _alarm(*a):
    raise ItemTimeout('work item did not finish in %d s' % ITEM_TIMEOUT)


def run_item(mod, item, scratch, tier, seed):
    name, args = item
    ctx = Ctx(scratch, tier, seed)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(ITEM_TIMEOUT)
    try:
        return getattr(mod, name)(ctx, *args)
    except (Exception, ItemTimeout, SystemExit) as e:
        r = Rep()
        r.bad('exception', '%s(%s) raised %s: %s\n%s' % (
            name, json.dumps(args, default=str)[:300], type(e).__name__, e, traceback.format_exc()[-1500:]))
        return r
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def _load_known(prop):
    known = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                rest = line[len('finding: property=%s ' % prop):]
                key, _, text = rest.partition(' :: ')
                known.append((key.strip()[len('key='):], text.strip()))
    return known


def _worker(mod, items, wfd, rfd, base, tier, seed):
    '''takes item indices from rfd (4 bytes each), writes pickled Reps to wfd.'''
    scratch = tempfile.mkdtemp(prefix='w', dir=base)
    os.chdir(scratch)
    w = os.fdopen(wfd, 'wb')
    while True:
        b = os.read(rfd, 4)
        if len(b) < 4:
            break
        i = int.from_bytes(b, 'little')
        t = time.time()
        rep = run_item(mod, items[i], scratch, tier, seed)
        rep.wall = time.time() - t
        for e in os.listdir(scratch):
            shutil.rmtree(os.path.join(scratch, e), ignore_errors=True)
        p = pickle.dumps((i, rep))
        w.write(len(p).to_bytes(8, 'little') + p)
        w.flush()
    w.close()
    os._exit(0)


def run_pool(mod, items, base, tier, seed, stop):
    import selectors
    n = max(1, min(NPROC, len(items)))
    rp, wp = os.pipe()
    sel = selectors.DefaultSelector()
    pids = []
    for k in range(n):
        a, b = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(wp)
                os.close(a)
                _worker(mod, items, b, rp, base, tier, seed)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(4)
        os.close(b)
        pids.append(pid)
        sel.register(a, selectors.EVENT_READ, {'fd': a, 'buf': b'', 'pid': pid})
    os.close(rp)
    # feed indices (in order); the pipe is the queue
    q = b''.join(i.to_bytes(4, 'little') for i in range(len(items)))
    os.set_blocking(wp, False)
    done = {}
    live = n
    closed = False

    def feed():
        nonlocal q, closed
        while q:
            try:
                m = os.write(wp, q[:1024])
                q = q[m:]
            except BlockingIOError:
                return
            except BrokenPipeError:
                q = b''
        if not q and not closed:
            os.close(wp)
            closed = True
    feed()
    while live:
        for key, _ in sel.select(0.5):
            st = key.data
            data = os.read(st['fd'], 1 << 20)
            if not data:
                sel.unregister(st['fd'])
                os.close(st['fd'])
                live -= 1
                continue
            st['buf'] += data
            while len(st['buf']) >= 8:
                ln = int.from_bytes(st['buf'][:8], 'little')
                if len(st['buf']) < 8 + ln:
                    break
                i, rep = pickle.loads(st['buf'][8:8 + ln])
                st['buf'] = st['buf'][8 + ln:]
                done[i] = rep
                if stop(i, rep):
                    for p in pids:
                        try:
                            os.kill(p, signal.SIGTERM)
                        except ProcessLookupError:
                            pass
                    live = 0
                    q = b''
        if not closed:
            feed()
    if not closed:
        os.close(wp)
    for p in pids:
        try:
            os.waitpid(p, 0)
        except ChildProcessError:
            pass
    return done


def main(argv):
    t0 = time.time()
    if argv and argv[0] == '--replay':
        return replay(argv[1])
    cid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 1:
        tier = argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = importlib.import_module('checks.' + cid.lower())
    prop = mod.PROP
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    known = _load_known(prop)
    shm = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    base = tempfile.mkdtemp(prefix='vp-%s-' % prop.lower(), dir=os.environ.get('VERIF_SCRATCH') or shm)
    try:
        with quiet():
            items = [(f, list(a)) for f, a in mod.plan(tier, seed)]

        def isknown(k):
            return any(k == kk for kk, _ in known)

        def stop(i, rep):
            return any(not isknown(k) for k, _ in rep.viol)
        done = run_pool(mod, items, base, tier, seed, stop)
    finally:
        shutil.rmtree(base, ignore_errors=True)

    tot = Rep()
    keys = set()
    viols, hits = [], {}
    for i in sorted(done):
        r = done[i]
        tot.evals += r.evals
        tot.states += r.states
        tot.transitions += r.transitions
        tot.traces += r.traces
        keys |= r.keys
        for k, v in r.extra.items():
            tot.extra[k] = tot.extra.get(k, 0) + v
        if len(tot.samples) < 4:
            tot.samples += r.samples[:1]
        for k, m in r.viol:
            if isknown(k):
                hits.setdefault(k, m)
            else:
                viols.append((i, k, m))
    if os.environ.get('VERIF_TIMES'):
        for i in sorted(done, key=lambda i: -done[i].wall)[:25]:
            print('%.1f s %r' % (done[i].wall, items[i]))
    missing = [i for i in range(len(items)) if i not in done]
    if missing and not viols:
        viols.append((missing[0], 'died', 'the process running this work item died: %r' % (items[missing[0]],)))
    if not viols and hasattr(mod, 'finish'):
        for k, m in mod.finish(tot, keys) or []:
            viols.append((0, k, m))

    if not tot.states:      # plain enumeration: a state is a case, each executed on the real code against the model
        tot.states, tot.transitions, tot.traces = len(keys), tot.evals, tot.traces or tot.evals
    cov = {
        'evaluations': tot.evals,
        'distinct_nontrivial': len(keys),
        'rule': mod.RULE,
        'samples': tot.samples[:4] or [{'item': items[0]}] if items else [],
        'states': tot.states,
        'transitions': tot.transitions,
        'traces_validated_against_impl': tot.traces,
        'work_items': len(items),
        'work_items_done': len(done),
        'exhaustive': bool(getattr(mod, 'EXHAUSTIVE', True)) and not viols,
    }
    cov.update(tot.extra)
    ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed,
          'level': mod.LEVEL, 'coverage': cov, 'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
          'wall_s': round(time.time() - t0, 2), 'violations': len(viols)}
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    print('%s: %d work items, evaluations=%d distinct=%d states=%d transitions=%d %s in %.1f s' % (
        prop, len(done), tot.evals, len(keys), tot.states, tot.transitions,
        ' '.join('%s=%s' % kv for kv in sorted(tot.extra.items())), time.time() - t0))
    for k, text in known:
        if k in hits:
            print('KNOWN-FINDING: property=%s %s' % (prop, text))
        else:
            print('note: known finding %s did not show up in this run' % k)
    if viols:
        i, k, m = viols[0]
        path = os.path.join(VERIF, 'evidence', 'replay-%s-%s.json' % (
            prop, hashlib.sha1(('%s%s' % (k, m)).encode()).hexdigest()[:10]))
        with open(path, 'w') as f:
            json.dump({'check': cid, 'tier': tier, 'seed': seed, 'item': items[i], 'key': k, 'message': m}, f,
                      indent=1, default=str)
        print('%s (%d work item(s) in all, key %s)' % (m, len({v[0] for v in viols}), k))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0


def replay(path):
    d = json.load(open(path))
    mod = importlib.import_module('checks.' + d['check'].lower())
    base = tempfile.mkdtemp(prefix='vp-replay-')
    os.chdir(base)
    try:
        rep = run_item(mod, d['item'], base, d['tier'], d['seed'])
    finally:
        os.chdir('/')
        shutil.rmtree(base, ignore_errors=True)
    for k, m in rep.viol:
        print('%s: %s' % (k, m))
    print('replayed: %d violation(s)' % len(rep.viol))
    return 1 if rep.viol else 0
