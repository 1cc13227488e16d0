'''Interception of the file-system operations that a process makes below one
directory.  Each operation is reported to a hook before it takes effect.

Events (kind, path, ext):
  stat / size / list / openr / openw / closew / create / truncate / write / read /
  mkdir / remove / rename / tree
'''
import builtins
import io
import os
import shutil


class Real:
    open = staticmethod(builtins.open)
    os_open = staticmethod(os.open)
    stat = staticmethod(os.stat)
    truncate = staticmethod(os.truncate)

    @staticmethod
    def exists(p, _stat=os.stat):
        try:
            _stat(p)
            return True
        except OSError:
            return False

    @staticmethod
    def getsize(p, _stat=os.stat):
        return _stat(p).st_size


def _norm(p):
    return os.path.normpath(os.path.join(os.getcwd(), p))


class Monitor:
    def __init__(self, root, hook, split_write=True):
        '''hook(kind, path, ext, info) is called before each effect.'''
        self.root = os.path.normpath(root)
        self.hook = hook
        self.real = Real()

    def inside(self, p):
        try:
            p = os.fspath(p)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not isinstance(p, str):
            return None
        p = _norm(p)
        if p == self.root or p.startswith(self.root + os.sep):
            return p
        return None

    def install(self):
        mon = self
        ropen = builtins.open

        def mopen(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            p = None if isinstance(file, int) or opener is not None else mon.inside(file)
            if p is None:
                return ropen(file, mode, buffering, encoding, errors, newline, closefd, opener)
            if not any(c in mode for c in 'wax+'):
                mon.hook('openr', p, None, None)
                return ropen(file, mode, buffering, encoding, errors, newline)
            if '+' in mode and 'w' not in mode and 'a' not in mode and 'x' not in mode:
                # r+: the real file object is needed (memory maps); one event
                mon.hook('openrw', p, None, None)
                return ropen(file, mode, buffering, encoding, errors, newline)
            mon.hook('openw', p, None, mode)
            f = ropen(file, mode, buffering, encoding, errors, newline)
            if '+' in mode or 'a' in mode:
                return f                       # memory maps created with w+, appended files
            return _Writer.make(mon, p, f, 'b' in mode)

        builtins.open = mopen
        io.open = mopen

        def wrap(mod, name, kind, two=False):
            real = getattr(mod, name)

            def f(path='.', *a, **k):
                if isinstance(path, int) or k.get('dir_fd') is not None:
                    return real(path, *a, **k)
                p = mon.inside(path)
                if p is not None:
                    mon.hook(kind, p, None, a[0] if two and a else None)
                if two and a:
                    q = mon.inside(a[0])
                    if q is not None:
                        mon.hook('renameto', q, None, None)
                return real(path, *a, **k)
            f.__name__ = name
            setattr(mod, name, f)

        wrap(os, 'stat', 'size')
        wrap(os, 'lstat', 'size')
        wrap(os, 'access', 'stat')
        wrap(os, 'listdir', 'list')
        wrap(os, 'scandir', 'list')
        wrap(os, 'mkdir', 'mkdir')
        wrap(os, 'remove', 'remove')
        wrap(os, 'unlink', 'remove')
        wrap(os, 'rmdir', 'remove')
        wrap(os, 'rename', 'rename', True)
        wrap(os, 'replace', 'rename', True)
        wrap(os, 'truncate', 'truncate')
        real_rmtree = shutil.rmtree
        rs = {n: getattr(os, n) for n in ('stat', 'lstat', 'listdir', 'scandir', 'unlink', 'remove', 'rmdir')}

        def rmtree(path, *a, **k):
            p = mon.inside(path)
            if p is None:
                return real_rmtree(path, *a, **k)
            mon.hook('tree', p, None, None)
            h, mon.hook = mon.hook, lambda *x: None
            try:
                return real_rmtree(path, *a, **k)
            finally:
                mon.hook = h
        shutil.rmtree = rmtree

        def wrap_exists(name):
            import genericpath
            real = getattr(os.path, name)

            def f(path):
                p = mon.inside(path) if not isinstance(path, int) else None
                if p is None:
                    return real(path)
                mon.hook('stat', p, None, None)
                h, mon.hook = mon.hook, lambda *x: None
                try:
                    return real(path)
                finally:
                    mon.hook = h
            f.__name__ = name
            setattr(os.path, name, f)
            if hasattr(genericpath, name):
                setattr(genericpath, name, f)
        for n in ('exists', 'isfile', 'isdir', 'lexists', 'islink'):
            wrap_exists(n)


class _Writer:
    '''File object opened for writing whose content reaches the file at close
    (or flush), as one event.'''

    @staticmethod
    def make(mon, path, f, binary):
        base = io.BytesIO if binary else io.StringIO
        state = {'f': f, 'mon': mon, 'path': path}

        class W(base):
            name = path
            mode = 'wb' if binary else 'w'

            def writable(self):
                return True

            def readable(self):
                return False

            def close(self):
                if not self.closed:
                    data = self.getvalue()
                    state['mon'].hook('closew', state['path'], None, data)
                    g = state['f']
                    g.seek(0)
                    g.truncate()
                    g.write(data)
                    g.close()
                    super().close()

            def __exit__(self, *a):
                self.close()

            def __del__(self):
                try:
                    self.close()
                except BaseException:
                    pass
        return W()


# --------------------------------------------------------------------------
def accesses(kind, path, ext, existed):
    '''list of (resource, 'R'|'W', region) of an event; region None = everything.'''
    par = os.path.dirname(path)
    e, d, f = ('e', path), ('d', par), ('f', path)
    if kind == 'stat':
        return [(e, 'R', None)]
    if kind == 'size':
        return [(e, 'R', None), (f, 'R', None)]
    if kind == 'list':
        return [(('d', path), 'R', None), (e, 'R', None)]
    if kind in ('openr', 'openrw'):        # r+: what is written through a memory map cannot be seen here
        return [(e, 'R', None), (f, 'R', None)]
    if kind in ('openw', 'create'):
        a = [(e, 'R' if existed else 'W', None), (('e', par), 'R', None)]
        if not existed:
            a.append((d, 'W', None))
        if kind == 'openw':
            a.append((f, 'W', None))
        return a
    if kind in ('closew', 'truncate'):
        return [(f, 'W', None), (e, 'R', None)]
    if kind == 'write':
        return [(f, 'W', ext), (e, 'R', None)]
    if kind == 'read':
        return [(f, 'R', ext), (e, 'R', None)]
    if kind in ('mkdir', 'remove', 'rename', 'renameto'):
        return [(e, 'W', None), (d, 'W', None), (f, 'W', None), (('e', par), 'R', None)]
    if kind == 'tree':
        return [(('t', path), 'W', None)]
    raise AssertionError(kind)


def _under(p, root):
    return p == root or p.startswith(root + os.sep)


def conflict(a, b):
    '''do two access lists conflict?'''
    for ra, ma, ga in a:
        for rb, mb, gb in b:
            if ma == 'R' and mb == 'R':
                continue
            if ra[0] == 't' or rb[0] == 't':
                t, o = (ra, rb) if ra[0] == 't' else (rb, ra)
                if _under(o[1], t[1]):
                    return True
                continue
            if ra != rb:
                continue
            if ga is None or gb is None:
                return True
            if len(ga) and len(gb):
                if ga[-1] < gb[0] or gb[-1] < ga[0]:
                    continue
                if not set(ga.tolist()).isdisjoint(gb.tolist()):
                    return True
    return False
