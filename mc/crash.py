'''Crash states of a recorded run: which file contents can be left behind when all ranks stop at some point.

Sim(..., env={'effects': True}) records every mutating file operation with its content and vector clock.  A crash state
is a consistent cut of those operations (for each rank a prefix, closed under happens-before), optionally with one more
write that reached the disk only in part.'''
import os
import shutil

from .sim import MUTATING as MUT


def mutating(res):
    return [e for e in res.events if e['kind'] in MUT]


def apply(e, old, new, part=None):
    '''redo one recorded effect below directory `new` instead of `old`.  part: number of bytes of a write that arrive.'''
    def there(p):
        return os.path.join(new, os.path.relpath(p, old))
    p, k = there(e['path']), e['kind']
    if k == 'mkdir':
        os.makedirs(p, exist_ok=True)
    elif k == 'create':
        open(p, 'ab').close()
    elif k == 'openw':
        if 'a' not in e['info']:
            open(p, 'wb').close()
    elif k == 'closew':
        d = e['info'] if isinstance(e['info'], bytes) else e['info'].encode()
        with open(p, 'wb') as f:
            f.write(d if part is None else d[:part])
    elif k == 'truncate':
        os.truncate(p, int(e['info'] or 0))
    elif k == 'write':
        d, x = e['info'], e['ext']
        n = len(d) if part is None else part
        with open(p, 'r+b') as f:
            for i in range(n):
                if i == 0 or x[i] != x[i - 1] + 1:
                    f.seek(int(x[i]))
                f.write(d[i:i + 1])
    elif k == 'remove':
        if os.path.isdir(p):
            os.rmdir(p)
        else:
            os.remove(p)
    elif k == 'rename':
        os.replace(p, there(os.path.normpath(os.path.join(os.getcwd(), os.fspath(e['info'])))))
    elif k == 'tree':
        shutil.rmtree(p, ignore_errors=True)


def cuts(res, n):
    '''all consistent cuts, as tuples of per-rank counts of mutating operations.'''
    ch = [[e for e in mutating(res) if e['rank'] == r] for r in range(n)]
    pos = [{} for _ in range(n)]

    def ok(c, r):       # may rank r take its next operation in cut c?
        e = ch[r][c[r]]
        for q in range(n):
            if q != r and c[q] < len(ch[q]) and ch[q][c[q]]['n'] <= e['vcb'][q]:
                return False
        return True
    start = (0,) * n
    seen, todo = {start}, [start]
    while todo:
        c = todo.pop()
        yield c, [ch[r][c[r]] for r in range(n) if c[r] < len(ch[r]) and ok(c, r)]
        for r in range(n):
            if c[r] < len(ch[r]) and ok(c, r):
                m = c[:r] + (c[r] + 1,) + c[r + 1:]
                if m not in seen:
                    seen.add(m)
                    todo.append(m)


def states(res, n, old, new, base=None, full=True):
    '''generates crash states into directory `new` (rebuilt for each); yields a description of each state.
    base: directory whose content was below `old` when the run started.  full: more lengths of torn writes.'''
    evs = mutating(res)

    def build(c, torn=None):
        shutil.rmtree(new, ignore_errors=True)
        if base:
            shutil.copytree(base, new)
        else:
            os.makedirs(new)
        cnt = [0] * n
        for e in evs:
            r = e['rank']
            if cnt[r] < c[r]:
                apply(e, old, new)
                cnt[r] += 1
        if torn:
            apply(torn[0], old, new, torn[1])
    for c, nxt in cuts(res, n):
        build(c)
        yield {'cut': c}
        for e in nxt:
            if e['kind'] not in ('closew', 'write'):
                continue
            size = len(e['info'])
            for part in sorted({1, 64, 127, 128, 129, 136, size // 2, size - 8, size - 1} if full else {128, size // 2, size - 8}):
                if 0 < part < size:
                    build(c, (e, part))
                    yield {'cut': c, 'torn': os.path.basename(e['path']), 'bytes': part}
