'''Controlled execution of an SPMD program on simulated MPI ranks.

Every rank is a forked process running the real pyspod code.  Its MPI calls and
its file-system operations below the monitored directory are handed to the
coordinator (this module, in the parent), which decides when each takes effect.

* MPI calls get the weakest synchronisation the MPI standard allows (a Bcast
  root does not wait for the others, a Reduce leaf does not wait for the root,
  File.Close / Write_all do not synchronise, ...), so a behaviour that only works
  because an implementation synchronises more than it must is not hidden.
* The order of MPI completions is immaterial (they commute); the order of
  file-system operations of different ranks is what is explored, with dynamic
  partial-order reduction and sleep sets (explore()).
'''
import errno
import os
import signal
import sys
import time
import traceback
import multiprocessing.connection as mpc
from multiprocessing import Pipe

from . import fsmon

HANG = 60.0
MUTATING = ('openw', 'closew', 'create', 'truncate', 'write', 'mkdir', 'remove', 'rename', 'tree')


class SimError(Exception):
    '''The harness itself went wrong (never a verdict).'''


# --------------------------------------------------------------------------
# rank side
# --------------------------------------------------------------------------
class Link:
    def __init__(self, conn, rank, size, env):
        self.conn, self.rank, self.size, self.env = conn, rank, size, env
        self.early = {}
        self.real = fsmon.Real()
        self._cids = {}
        self.mon = None
        self.muted = False
        self.writes = 0           # mutating operations of this rank so far

    def call(self, op):
        self.conn.send(op)
        rep, deliver = self.conn.recv()
        for rid, payload in deliver:
            f = self.early.pop(rid, None)
            if f:
                f(payload)
        return rep

    def fs(self, kind, path, ext, info=None):
        p = self.mon.inside(path) if self.mon else None
        if p is None or self.muted:
            return
        if kind in MUTATING:
            self.writes += 1
            who, k = self.env.get('fail', (None, 0))      # from then on nothing can be written
            if who == self.rank and self.writes > k:
                raise OSError(errno.ENOSPC, 'injected: no space left on device', p)
        self.call(('fs', kind, p, ext, self.real.exists(p), info if self.env.get('effects') else None))

    def note(self, text):
        self.call(('note', text))

    def nextcid(self, cid):
        self._cids[cid] = self._cids.get(cid, 0) + 1
        return self._cids[cid]


def _rank_main(conn, rank, size, env, root, fn, args):
    from mpi4py import MPI
    devnull = os.open(os.devnull, os.O_WRONLY)
    if not env.get('verbose'):
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        sys.stdout = open(os.devnull, 'w')
        sys.stderr = open(os.devnull, 'w')
    link = Link(conn, rank, size, env)
    MPI._LINK = link
    MPI.VERSION = env.get('mpi_version', 3)
    if 'int32_max' in env:
        _patch_int32(env['int32_max'])
    if root is not None:
        mon = fsmon.Monitor(root, lambda kind, p, ext, info: link.fs(kind, p, ext, info))
        link.mon = mon
        mon.install()
    try:
        res = fn(MPI.COMM_WORLD, *args)
        out = ('done', res)
    except BaseException as e:  # noqa
        out = ('exc', type(e).__name__, str(e)[:500], traceback.format_exc()[-2500:])
    try:
        conn.send(out)
    except BaseException as e:  # noqa
        conn.send(('exc', 'Unpicklable', repr(e), ''))
    os._exit(0)


def _patch_int32(limit):
    '''Model a smaller INT32_MAX, so that the code that works around the limit
    of MPI counts runs on small arrays.'''
    import numpy as np
    real = np.iinfo

    class _Small:
        def __init__(self, i):
            self.min, self.max, self.bits, self.dtype = -limit - 1, limit, 32, i.dtype

    def iinfo(t):
        i = real(t)
        return _Small(i) if i.bits == 32 and i.min < 0 else i
    np.iinfo = iinfo


# --------------------------------------------------------------------------
# coordinator
# --------------------------------------------------------------------------
class Result:
    def __init__(self):
        self.status = 'ok'        # ok | deadlock | mismatch | hang | abort | pruned
        self.detail = ''
        self.out = []             # per rank: ('done', value) | ('exc', type, msg, tb) | None
        self.events = []          # fs events: dict(rank, kind, path, acc, vc_before, vc_after)
        self.notes = []
        self.points = []          # scheduling points: dict(enabled, chosen, acc)
        self.mpi_ops = 0
        self.leftover = 0
        self.races = []

    @property
    def values(self):
        return [o[1] if o and o[0] == 'done' else None for o in self.out]

    def ok(self):
        return self.status == 'ok' and all(o and o[0] == 'done' for o in self.out)

    def describe(self):
        if self.status != 'ok':
            return '%s: %s' % (self.status, self.detail)
        bad = [(i, o) for i, o in enumerate(self.out) if not o or o[0] != 'done']
        if bad:
            i, o = bad[0]
            return 'rank %d raised %s: %s' % (i, o[1], o[2]) if o else 'rank %d did not finish' % i
        return 'ok'


class Sim:
    def __init__(self, n, fn, args=(), env=None, root=None, policy='low'):
        self.n, self.fn, self.args = n, fn, args
        self.env = dict(env or {})
        self.root = root
        self.policy = policy

    # ---- life cycle
    def _start(self):
        self.conns, self.pids = [], []
        for r in range(self.n):
            a, b = Pipe(duplex=True)
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    a.close()
                    for c in self.conns:
                        c.close()
                    signal.alarm(0)
                    signal.signal(signal.SIGALRM, signal.SIG_DFL)
                    _rank_main(b, r, self.n, self.env, self.root, self.fn, self.args)
                finally:
                    os._exit(3)
            b.close()
            self.conns.append(a)
            self.pids.append(pid)

    def _stop(self):
        for pid in self.pids:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        for pid in self.pids:
            try:
                os.waitpid(pid, 0)
            except ChildProcessError:
                pass
        for c in self.conns:
            c.close()

    def run(self, prefix=(), sleep_at=None):
        '''Execute once.  prefix: ranks chosen at the first scheduling points.
        sleep_at: {point index: {rank: acc}} sleep sets to start with.'''
        try:
            self._start()
            return self._run(list(prefix), sleep_at or {})
        finally:
            self._stop()

    def _recv(self, r):
        try:
            if not self.conns[r].poll(HANG):
                self.pend[r] = ('hang',)
                return
            op = self.conns[r].recv()
        except (EOFError, ConnectionResetError):
            op = ('exc', 'Died', 'rank process died', '')
        if op[0] in ('done', 'exc'):
            self.res.out[r] = op
            self.pend[r] = None
            return
        self.pend[r] = op
        self._post(r, op)

    def _reply(self, r, rep):
        self.pend[r] = None
        d, self.deliver[r] = self.deliver[r], []
        self.vc[r][r] += 1
        self.conns[r].send((rep, d))

    def _merge(self, r, vc):
        me = self.vc[r]
        for i, x in enumerate(vc):
            if x > me[i]:
                me[i] = x

    # ---- posting (immediate, commutes with everything)
    def _post(self, r, op):
        k = op[0]
        if k in ('coll', 'icoll'):
            _, cid, me, size, name, meta, payload, need, root = op
            seq = self.cseq[r].get(cid, 0)
            self.cseq[r][cid] = seq + 1
            s = self.slots.setdefault((cid, seq), {'name': name, 'meta': meta, 'arr': {}, 'first': r})
            if s['name'] != name or s['meta'] != meta:
                self.fail = ('mismatch', 'rank %d calls %s%r where rank %d calls %s%r (call %d on %r)' % (
                    r, name, meta, s['first'], s['name'], s['meta'], seq, cid))
            s['arr'][me] = (payload, list(self.vc[r]))
            if need == 'all':
                req = set(range(size))
            elif need == 'root':
                req = {root}
            elif need == 'prefix':
                req = set(range(me + 1))
            elif need == 'xprefix':
                req = set(range(me))
            else:
                req = set()
            self.cur[r] = (s, req)
            if k == 'icoll':
                self.rid += 1
                self.reqs[self.rid] = {'t': 'icoll', 's': s, 'req': req, 'r': r}
                self._quick.append((r, self.rid))
        elif k == 'isend':
            _, cid, me, dst, tag, data = op
            self.rid += 1
            q = {'t': 'send', 'cid': cid, 'src': me, 'dst': dst, 'tag': tag, 'data': data, 'r': r,
                 'vc': list(self.vc[r]), 'm': None}
            self.reqs[self.rid] = q
            self.sends.append(q)
            self._match(cid)
            self._quick.append((r, self.rid))
        elif k == 'irecv':
            _, cid, me, src, tag = op
            self.rid += 1
            q = {'t': 'recv', 'cid': cid, 'src': src, 'dst': me, 'tag': tag, 'r': r,
                 'vc': list(self.vc[r]), 'm': None, 'rid': self.rid}
            self.reqs[self.rid] = q
            self.recvs.append(q)
            self._match(cid)
            self._quick.append((r, self.rid))
        elif k == 'note':
            self.res.notes.append('rank %d: %s' % (r, op[1]))
            self._quick.append((r, None))
        elif k == 'abort':
            self.fail = ('abort', 'rank %d called Abort' % r)

    def _match(self, cid, wild=False):
        for q in self.recvs:
            if q['cid'] != cid or q['m'] is not None:
                continue
            if q['src'] == -1 and not wild:
                break_ok = [w for w in self.recvs if w is q]
                continue
            cand = [s for s in self.sends if s['cid'] == cid and s['m'] is None and s['dst'] == q['dst']
                    and (q['src'] == -1 or s['src'] == q['src']) and (q['tag'] == -1 or s['tag'] == q['tag'])]
            # an earlier posted wildcard receive of the same rank takes precedence
            if any(w['src'] == -1 and w['m'] is None and w['dst'] == q['dst'] and
                   self.recvs.index(w) < self.recvs.index(q) and
                   (w['tag'] == -1 or any(c['tag'] == w['tag'] for c in cand)) for w in self.recvs
                   if w['cid'] == cid and w is not q):
                continue
            if not cand:
                continue
            firsts = {}
            for s in cand:
                firsts.setdefault(s['src'], s)
            order = sorted(firsts)
            if q['src'] == -1 and self.env.get('anysrc', 'low') == 'high':
                order = order[::-1]
            s = firsts[order[0]]
            q['m'], s['m'] = s, q
            self.recvs.remove(q)
            self.sends.remove(s)
            if self.env.get('p2p_deliver', 'late') == 'early':
                self.deliver[q['r']].append((q['rid'], (s['data'], s['src'], s['tag'])))
            return self._match(cid, wild) or True
        return False

    def _complete(self, rid):
        '''payload wrapper if request rid is complete, else None.'''
        q = self.reqs[rid]
        if q['t'] == 'icoll':
            if q['req'] <= set(q['s']['arr']):
                return ({i: q['s']['arr'][i][0] for i in q['req']},)
            return None
        if q['t'] == 'send':
            if self.env.get('p2p_send', 'rendezvous') == 'eager' or q['m'] is not None:
                return (None,)
            return None
        if q['m'] is not None:
            s = q['m']
            return ((s['data'], s['src'], s['tag']),)
        return None

    def _finish(self, r, rid):
        q = self.reqs.pop(rid)
        if q['t'] == 'icoll':
            for i in q['req']:
                self._merge(r, q['s']['arr'][i][1])
        elif q['t'] == 'recv':
            self._merge(r, q['m']['vc'])
        elif q['m'] is not None and self.env.get('p2p_send', 'rendezvous') != 'eager':
            self._merge(r, q['m']['vc'])

    def _try(self, r):
        '''fire the MPI op of rank r if it is enabled.'''
        op = self.pend[r]
        k = op[0]
        if k == 'coll':
            s, req = self.cur[r]
            if not req <= set(s['arr']):
                return False
            for i in req:
                self._merge(r, s['arr'][i][1])
            self._reply(r, {i: s['arr'][i][0] for i in req})
            return True
        if k == 'wait':
            c = [self._complete(x) for x in op[1]]
            if any(x is None for x in c):
                return False
            for x in op[1]:
                self._finish(r, x)
            self._reply(r, [x[0] for x in c])
            return True
        if k == 'waitany':
            order = list(enumerate(op[1]))
            if self.env.get('anysrc', 'low') == 'high':
                order = order[::-1]
            for i, x in order:
                c = self._complete(x)
                if c is not None:
                    self._finish(r, x)
                    self._reply(r, (i, c[0]))
                    return True
            return False
        if k == 'test':
            c = self._complete(op[1][0])
            if c is not None:
                self._finish(r, op[1][0])
            self._reply(r, c)
            return True
        if k in ('probe', 'iprobe'):
            _, cid, me, src, tag = op
            cand = [s for s in self.sends if s['cid'] == cid and s['dst'] == me and (src == -1 or s['src'] == src)
                    and (tag == -1 or s['tag'] == tag)]
            if cand:
                s = cand[0] if self.env.get('anysrc', 'low') == 'low' else cand[-1]
                self._reply(r, (s['src'], s['tag'], len(s['data'])))
                return True
            if k == 'iprobe':
                self._reply(r, None)
                return True
            return False
        if k == 'cancel':
            q = self.reqs.get(op[1])
            if q in self.recvs:
                self.recvs.remove(q)
            self._reply(r, None)
            return True
        return False

    # ---- main loop
    def _run(self, prefix, sleep_at):
        n = self.n
        res = self.res = Result()
        res.out = [None] * n
        self.pend = [None] * n
        self.vc = [[0] * n for _ in range(n)]
        self.cseq = [dict() for _ in range(n)]
        self.slots, self.reqs, self.rid = {}, {}, 0
        self.sends, self.recvs = [], []
        self.cur = [None] * n
        self.deliver = [[] for _ in range(n)]
        self.fail = None
        self._quick = []
        last = {}                 # conflict clocks: list of (acc, vc) of past events
        hist = []
        sleep = {}
        for r in range(n):
            self._recv(r)
        npoint = 0
        nops = 0
        while True:
            if self.fail:
                res.status, res.detail = self.fail
                return self._end(res)
            if any(p is not None and p[0] == 'hang' for p in self.pend):
                res.status = 'hang'
                res.detail = 'rank %s did not reach its next operation in %d s' % (
                    [i for i, p in enumerate(self.pend) if p and p[0] == 'hang'], HANG)
                return self._end(res)
            # immediate replies
            if self._quick:
                q, self._quick = self._quick, []
                for r, rid in q:
                    self._reply(r, rid)
                    res.mpi_ops += 1
                for r, _ in q:
                    self._recv(r)
                continue
            fired = []
            for r in range(n):
                if self.pend[r] is not None and self.pend[r][0] != 'fs' and self._try(r):
                    fired.append(r)
            if fired:
                res.mpi_ops += len(fired)
                nops += len(fired)
                if nops > 2000000:
                    res.status, res.detail = 'hang', 'livelock'
                    return self._end(res)
                for r in fired:
                    self._recv(r)
                continue
            fsr = [r for r in range(n) if self.pend[r] is not None and self.pend[r][0] == 'fs']
            if not fsr:
                # wildcard receives are matched when nothing else can move
                if any(self._match(c, True) for c in {q['cid'] for q in self.recvs}):
                    continue
                if all(p is None for p in self.pend):
                    res.leftover = len(self.sends) + len(self.recvs)
                    return self._end(res)
                res.status = 'deadlock'
                fin = [i for i in range(n) if self.pend[i] is None]
                res.detail = 'blocked: ' + '; '.join(
                    'rank %d in %s' % (i, self._show(p)) for i, p in enumerate(self.pend) if p is not None)
                if fin:
                    res.detail += '; finished: %s' % ', '.join(
                        '%d (%s)' % (i, res.out[i][0] if res.out[i][0] == 'done' else '%s: %s' % res.out[i][1:3])
                        for i in fin)
                return self._end(res)
            # a scheduling point: only file-system operations are pending
            acc = {}
            for r in fsr:
                _, kind, path, ext, existed, info = self.pend[r]
                acc[r] = fsmon.accesses(kind, path, ext, existed)
            if npoint in sleep_at:
                sleep = dict(sleep_at[npoint])
            if npoint < len(prefix):
                r = prefix[npoint]
                if r not in fsr:
                    raise SimError('replay diverged at point %d: rank %d not enabled (%r)' % (npoint, r, fsr))
            else:
                cand = [r for r in fsr if r not in sleep]
                if not cand:
                    res.status = 'pruned'
                    return self._end(res)
                if self.policy == 'high':
                    r = cand[-1]
                elif self.policy == 'rr':
                    r = cand[npoint % len(cand)]
                else:
                    r = cand[0]
            res.points.append({'enabled': list(fsr), 'chosen': r, 'acc': acc, 'sleep': dict(sleep)})
            sleep = {q: a for q, a in sleep.items() if q != r and not fsmon.conflict(a, acc[r])}
            npoint += 1
            _, kind, path, ext, existed, info = self.pend[r]
            ev = {'rank': r, 'kind': kind, 'ext': ext, 'info': info, 'path': path, 'acc': acc[r], 'vcb': list(self.vc[r]), 'i': len(res.events)}
            for h in hist:
                if h['rank'] != r and fsmon.conflict(h['acc'], acc[r]):
                    self._merge(r, h['vca'])
            self.vc[r][r] += 1
            ev['vca'] = list(self.vc[r])
            ev['n'] = ev['vca'][r]
            hist.append(ev)
            res.events.append(ev)
            self._reply(r, None)
            self._recv(r)

    def _show(self, p):
        if p[0] in ('coll', 'icoll'):
            return '%s%r' % (p[4], p[5])
        if p[0] == 'wait':
            return 'Wait(%s)' % ','.join(sorted({self.reqs[x]['t'] for x in p[1] if self._complete(x) is None}))
        return p[0]

    def _end(self, res):
        # conflicting, unordered pairs of file-system events
        evs = res.events
        for i, b in enumerate(evs):
            for a in evs[:i]:
                if a['rank'] != b['rank'] and a['n'] > b['vcb'][a['rank']] and fsmon.conflict(a['acc'], b['acc']):
                    res.races.append((a['i'], b['i']))
        return res


def explore(mk, limit=100000, on_result=None):
    '''Dynamic partial-order reduction over the file-system operations.
    mk() returns a fresh Sim.  Returns (list of summaries, stats).
    on_result(res, choices) is called on each complete execution.'''
    stack = []          # one dict per scheduling point of the current path
    stats = {'executions': 0, 'pruned': 0, 'points': 0, 'mpi_ops': 0, 'complete': True}
    prefix, sleeps = [], {}
    while True:
        res = mk().run(prefix, sleeps)
        stats['mpi_ops'] += res.mpi_ops
        stats['points'] += len(res.points)
        if res.status == 'pruned':
            stats['pruned'] += 1
        else:
            stats['executions'] += 1
            if on_result is not None and on_result(res, [p['chosen'] for p in res.points]):
                stats['complete'] = False
                return stats
        # extend the stack with the new points
        for i, p in enumerate(res.points):
            if i < len(stack):
                continue
            stack.append({'enabled': p['enabled'], 'chosen': p['chosen'], 'acc': p['acc'],
                          'bt': {p['chosen']}, 'done': {}, 'sleep': p['sleep']})
        # add backtrack points for races
        for i, j in res.races:
            p = stack[i]
            rj = res.events[j]['rank']
            if rj in p['enabled']:
                p['bt'].add(rj)
            else:
                p['bt'].update(p['enabled'])
        # next alternative
        while stack:
            p = stack[-1]
            p['done'][p['chosen']] = p['acc'][p['chosen']]
            alt = [r for r in sorted(p['bt']) if r not in p['done'] and r not in p['sleep']]
            if alt:
                p['chosen'] = alt[0]
                break
            stack.pop()
        if not stack:
            return stats
        if stats['executions'] >= limit:
            stats['complete'] = False
            return stats
        prefix = [p['chosen'] for p in stack]
        k = len(stack) - 1
        p = stack[k]
        sl = dict(p['sleep'])
        sl.update({r: a for r, a in p['done'].items() if r != p['chosen']})
        sleeps = {k: sl}
