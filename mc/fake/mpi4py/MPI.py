'''Simulated MPI.  See mc/sim.py for the semantics that is given to each call.'''
from operator import index as _index
import os
import pickle
import time as _time
import numpy as _np

__spec_parent__ = 'mpi4py'

# --------------------------------------------------------------------------
# link to the coordinator (set by mc.sim in each rank process)
# --------------------------------------------------------------------------
_LINK = None          # object with .call(op) -> reply, .env dict


def _call(*op):
    if _LINK is None:
        raise RuntimeError('simulated MPI used outside of a simulated rank')
    return _LINK.call(op)


def _env(k, default=None):
    if _LINK is None:
        return default
    return _LINK.env.get(k, default)


class Exception(RuntimeError):  # noqa: A001
    def __init__(self, ierr=1, msg=''):
        super().__init__(ierr, msg)
        self.ierr = ierr

    def Get_error_code(self):
        return self.ierr

    def Get_error_string(self):
        return str(self)

    def Get_error_class(self):
        return self.ierr


ANY_SOURCE = -1
ANY_TAG = -1
PROC_NULL = -2
ROOT = -3
UNDEFINED = -32766
BOTTOM = None
KEYVAL_INVALID = -1
TAG_UB = 1000000
SUCCESS = 0
ERR_FILE = 27
ERR_NO_SUCH_FILE = 37
THREAD_SINGLE, THREAD_FUNNELED, THREAD_SERIALIZED, THREAD_MULTIPLE = 0, 1, 2, 3
ORDER_C, ORDER_FORTRAN = 56, 57
ORDER_F = ORDER_FORTRAN
MODE_CREATE, MODE_RDONLY, MODE_WRONLY, MODE_RDWR = 1, 2, 4, 8
MODE_DELETE_ON_CLOSE, MODE_UNIQUE_OPEN, MODE_EXCL, MODE_APPEND, MODE_SEQUENTIAL = 16, 32, 64, 128, 256
SEEK_SET, SEEK_CUR, SEEK_END = 600, 602, 604
COMM_TYPE_SHARED = 0
IDENT, CONGRUENT, SIMILAR, UNEQUAL = 0, 1, 2, 3
MAX_PROCESSOR_NAME = 256
DISPLACEMENT_CURRENT = -54278278
TYPECLASS_INTEGER, TYPECLASS_REAL, TYPECLASS_COMPLEX = 1, 2, 3
SUBVERSION = 1


class _VersionInt(int):
    pass


VERSION = 3


class _InPlace:
    def __repr__(self):
        return 'IN_PLACE'


IN_PLACE = _InPlace()


# --------------------------------------------------------------------------
# datatypes
# --------------------------------------------------------------------------
class Datatype:
    '''A datatype: list of byte offsets of the items it covers within its extent.'''

    def __init__(self, name, np_dtype, offsets=None, extent=None, committed=False):
        self._name = name
        self._np = _np.dtype(np_dtype) if np_dtype is not None else None
        self._off = offsets            # byte offsets of the basic items (sorted as laid out), None = basic
        self._extent = extent
        self._committed = committed
        self._freed = False

    @classmethod
    def Match_size(cls, typeclass, size):
        kind = {TYPECLASS_INTEGER: 'i', TYPECLASS_REAL: 'f', TYPECLASS_COMPLEX: 'c'}[typeclass]
        return _datatype_from_numpy(_np.dtype(kind + str(size)))

    def _chk(self):
        if self._freed:
            raise Exception(3, 'MPI_ERR_TYPE: invalid datatype (freed)')

    @property
    def itemsize_basic(self):
        return self._np.itemsize

    @property
    def name(self):
        return self._name

    @property
    def size(self):
        self._chk()
        return self._np.itemsize if self._off is None else len(self._off) * self._np.itemsize

    @property
    def extent(self):
        self._chk()
        return self._np.itemsize if self._off is None else self._extent

    @property
    def ub(self):
        return self.extent

    @property
    def lb(self):
        return 0

    @property
    def typestr(self):
        return self._np.str

    @property
    def typechar(self):
        return self._np.char

    def Get_size(self):
        return self.size

    def Get_extent(self):
        return 0, self.extent

    def Get_name(self):
        return self._name

    def tonumpy(self):
        return self._np

    todtype = tonumpy

    @classmethod
    def fromcode(cls, code):
        return _datatype_from_numpy(_np.dtype(code))

    def _offsets(self):
        return _np.zeros(1, dtype=_np.int64) if self._off is None else self._off

    def Dup(self):
        self._chk()
        return Datatype(self._name, self._np, self._off, self._extent, self._committed)

    def Create_contiguous(self, count):
        self._chk()
        base = self._offsets()
        off = (_np.arange(_index(count), dtype=_np.int64)[:, None] * self.extent + base[None, :]).ravel()
        return Datatype('contiguous', self._np, off, self.extent * int(count))

    def Create_vector(self, count, blocklength, stride):
        self._chk()
        base = self._offsets()
        i = (_np.arange(count)[:, None] * stride + _np.arange(blocklength)[None, :]).ravel()
        off = (i[:, None] * self.extent + base[None, :]).ravel()
        ext = ((count - 1) * stride + blocklength) * self.extent if count else 0
        return Datatype('vector', self._np, off, ext)

    def Create_hvector(self, count, blocklength, stride):
        self._chk()
        base = self._offsets()
        i = (_np.arange(count)[:, None] * stride + _np.arange(blocklength)[None, :] * self.extent).ravel()
        off = (i[:, None] + base[None, :]).ravel()
        ext = (count - 1) * stride + blocklength * self.extent if count else 0
        return Datatype('hvector', self._np, off, ext)

    def Create_indexed(self, blocklengths, displacements):
        self._chk()
        base = self._offsets()
        i = [d + k for b, d in zip(blocklengths, displacements) for k in range(b)]
        i = _np.array(i, dtype=_np.int64)
        off = (i[:, None] * self.extent + base[None, :]).ravel()
        ext = int((i.max() + 1) * self.extent) if len(i) else 0
        return Datatype('indexed', self._np, off, ext)

    def Create_indexed_block(self, blocklength, displacements):
        return self.Create_indexed([blocklength] * len(displacements), displacements)

    def Create_subarray(self, sizes, subsizes, starts, order=ORDER_C):
        self._chk()
        sizes = [_index(s) for s in sizes]
        subsizes = [_index(s) for s in subsizes]
        starts = [_index(s) for s in starts]
        if not (len(sizes) == len(subsizes) == len(starts)):
            raise ValueError('mismatch in sizes, subsizes, starts')
        for a, b, c in zip(sizes, subsizes, starts):
            if a < 1 or b < 1 or c < 0 or b > a or c + b > a:
                raise Exception(12, 'MPI_ERR_ARG: invalid argument of some other kind')
        full = _np.arange(int(_np.prod(sizes)), dtype=_np.int64).reshape(
            sizes, order='C' if order == ORDER_C else 'F')
        sub = full[tuple(slice(c, c + b) for b, c in zip(subsizes, starts))]
        idx = sub.ravel(order='C' if order == ORDER_C else 'F')
        base = self._offsets()
        off = (idx[:, None] * self.extent + base[None, :]).ravel()
        return Datatype('subarray', self._np, off, int(_np.prod(sizes)) * self.extent)

    def Create_resized(self, lb, extent):
        self._chk()
        return Datatype('resized', self._np, self._offsets(), int(extent))

    @classmethod
    def Create_struct(cls, blocklengths, displacements, datatypes):
        off = []
        npdt = _np.dtype('u1')
        for b, d, t in zip(blocklengths, displacements, datatypes):
            for k in range(b):
                for o in t._offsets():
                    for x in range(t._np.itemsize):
                        off.append(d + k * t.extent + int(o) + x)
        off = _np.array(off, dtype=_np.int64)
        return Datatype('struct', npdt, off, int(off.max()) + 1 if len(off) else 0)

    def Commit(self):
        self._chk()
        self._committed = True
        return self

    def Free(self):
        self._chk()
        if any(self is t for t in _typedict.values()):
            raise Exception(3, 'MPI_ERR_TYPE: predefined datatypes cannot be freed')
        self._freed = True

    free = Free

    def Is_predefined(self):
        return self._off is None

    is_predefined = property(lambda self: self._off is None)

    def __eq__(self, o):
        if not isinstance(o, Datatype):
            return NotImplemented
        if self._off is None and o._off is None:
            return self._np == o._np
        return self is o

    def __hash__(self):
        return id(self)


def _dt(name, np_dtype):
    return Datatype(name, np_dtype, committed=True)


_BASIC = {}
for _n, _d in [('BYTE', 'u1'), ('CHAR', 'S1'), ('SIGNED_CHAR', 'i1'), ('UNSIGNED_CHAR', 'u1'),
               ('SHORT', 'i2'), ('UNSIGNED_SHORT', 'u2'), ('INT', 'i4'), ('UNSIGNED', 'u4'),
               ('LONG', 'i8'), ('UNSIGNED_LONG', 'u8'), ('LONG_LONG', 'i8'), ('UNSIGNED_LONG_LONG', 'u8'),
               ('FLOAT', 'f4'), ('DOUBLE', 'f8'), ('LONG_DOUBLE', 'g'), ('BOOL', '?'), ('C_BOOL', '?'),
               ('INT8_T', 'i1'), ('INT16_T', 'i2'), ('INT32_T', 'i4'), ('INT64_T', 'i8'),
               ('UINT8_T', 'u1'), ('UINT16_T', 'u2'), ('UINT32_T', 'u4'), ('UINT64_T', 'u8'),
               ('C_COMPLEX', 'c8'), ('C_FLOAT_COMPLEX', 'c8'), ('C_DOUBLE_COMPLEX', 'c16'),
               ('COMPLEX', 'c8'), ('DOUBLE_COMPLEX', 'c16'), ('COMPLEX8', 'c8'), ('COMPLEX16', 'c16'),
               ('REAL', 'f4'), ('DOUBLE_PRECISION', 'f8'), ('REAL4', 'f4'), ('REAL8', 'f8'),
               ('INTEGER', 'i4'), ('INTEGER4', 'i4'), ('INTEGER8', 'i8'), ('AINT', 'i8'), ('OFFSET', 'i8'),
               ('COUNT', 'i8'), ('PACKED', 'u1'), ('CXX_FLOAT_COMPLEX', 'c8'), ('CXX_DOUBLE_COMPLEX', 'c16')]:
    globals()[_n] = _BASIC[_n] = _dt('MPI_' + _n, _d)
LONGLONG = LONG_LONG  # noqa
DATATYPE_NULL = Datatype('MPI_DATATYPE_NULL', None)
_typedict = {}
for _c, _d in [('?', BOOL), ('b', INT8_T), ('B', UINT8_T), ('h', SHORT), ('H', UNSIGNED_SHORT),  # noqa
               ('i', INT), ('I', UNSIGNED), ('l', LONG), ('L', UNSIGNED_LONG), ('q', LONG_LONG),  # noqa
               ('Q', UNSIGNED_LONG_LONG), ('f', FLOAT), ('d', DOUBLE), ('F', C_FLOAT_COMPLEX),  # noqa
               ('D', C_DOUBLE_COMPLEX), ('S', CHAR)]:  # noqa
    _typedict[_c] = _d


def _datatype_from_numpy(dtype):
    if not dtype.isnative:
        raise ValueError('byte-order mismatch for NumPy dtype: ' + dtype.str)
    try:
        return _typedict[dtype.char]
    except KeyError:
        if dtype.names or dtype.subdtype or dtype.kind in 'VSU':
            return Datatype('record', _np.dtype(('u1')), _np.arange(dtype.itemsize, dtype=_np.int64),
                            dtype.itemsize, True)
        raise ValueError('cannot convert NumPy dtype to MPI datatype: ' + dtype.str)


# --------------------------------------------------------------------------
# buffers
# --------------------------------------------------------------------------
def _raw(buf, readonly=False):
    '''1-D byte view of a contiguous buffer, and its numpy dtype.'''
    if buf is None:
        return _np.zeros(0, _np.uint8), None
    if isinstance(buf, _np.ndarray) or isinstance(buf, _np.generic):
        a = _np.asarray(buf)
        if not (a.flags.c_contiguous or a.flags.f_contiguous):
            raise BufferError('ndarray is not contiguous')
        if not readonly and not a.flags.writeable:
            raise BufferError('Object is not writable.')
        if not a.dtype.isnative:
            raise ValueError('byte-order mismatch for NumPy dtype: ' + a.dtype.str)
        flat = a.reshape(-1, order='C') if a.flags.c_contiguous else a.T.reshape(-1)
        dtype = a.dtype
        if flat.size == 0:
            return _np.zeros(0, _np.uint8), dtype
        return flat.view(_np.uint8), dtype
    mv = memoryview(buf)
    if not readonly and mv.readonly:
        raise BufferError('Object is not writable.')
    fmt = mv.format
    mvb = mv.cast('B') if mv.contiguous else None
    if mvb is None:
        raise BufferError('buffer is not contiguous')
    dtype = _np.dtype('u1') if fmt in ('B', 'b', 'c') else _np.dtype(fmt)
    return _np.frombuffer(mvb, dtype=_np.uint8), dtype


class _Msg:
    '''Decoded message specification: buffer (bytes view), datatype, counts.'''

    def __init__(self, spec, readonly, size=1, rank=None, vector=False, blocks=None):
        self.inplace = False
        counts = displs = datatype = None
        if spec is IN_PLACE:
            self.inplace = True
            return
        if spec is None:
            buf = None
        elif isinstance(spec, (list, tuple)):
            buf = spec[0]
            rest = list(spec[1:])
            if rest and (isinstance(rest[-1], Datatype) or isinstance(rest[-1], str)):
                datatype = rest.pop()
                if isinstance(datatype, str):
                    datatype = _datatype_from_numpy(_np.dtype(datatype))
            if len(rest) == 1:
                counts = rest[0]
                if isinstance(counts, tuple) and len(counts) == 2:
                    counts, displs = counts
            elif len(rest) == 2:
                counts, displs = rest
            elif len(rest) > 2:
                raise ValueError('message: expecting 2 to 4 items')
        else:
            buf = spec
        self.raw, npd = _raw(buf, readonly)
        if datatype is None:
            if npd is None:
                datatype = BYTE  # noqa
            else:
                datatype = _datatype_from_numpy(npd)
        datatype._chk()
        if not datatype._committed:
            raise Exception(3, 'MPI_ERR_TYPE: invalid datatype (not committed)')
        self.dt = datatype
        self.counts = counts
        self.displs = displs
        self.owner = buf
        ext = datatype.extent
        self.n = (len(self.raw) // ext) if ext else 0
        if isinstance(displs, int) and not vector:
            self.raw = self.raw[displs * ext:]
            self.n = (len(self.raw) // ext) if ext else 0
        if isinstance(counts, (int, _np.integer)):
            self.n = _index(counts)
            if self.n * ext > len(self.raw):
                raise ValueError('message: buffer too small for requested count')

    def pack(self, start=0, count=None):
        '''Bytes of count datatype instances starting at instance `start`.'''
        count = self.n if count is None else count
        ext = self.dt.extent
        if self.dt._off is None:
            b = self.raw[start * ext:(start + count) * ext]
            if len(b) < count * ext:
                raise ValueError('message: buffer too small')
            return b.tobytes()
        it = self.dt._np.itemsize
        off = self.dt._offsets()
        idx = ((_np.arange(count, dtype=_np.int64)[:, None] + start) * ext + off[None, :]).ravel()
        idx = (idx[:, None] + _np.arange(it)[None, :]).ravel()
        if len(idx) and idx.max() >= len(self.raw):
            raise ValueError('message: buffer too small')
        return self.raw[idx].tobytes()

    def unpack(self, data, start=0):
        data = _np.frombuffer(data, dtype=_np.uint8)
        ext = self.dt.extent
        if self.dt._off is None:
            s = start * ext
            if s + len(data) > len(self.raw):
                raise Exception(15, 'MPI_ERR_TRUNCATE: message truncated')
            self.raw[s:s + len(data)] = data
            return
        it = self.dt._np.itemsize
        off = self.dt._offsets()
        per = len(off) * it
        count = (len(data) + per - 1) // per if per else 0
        idx = ((_np.arange(count, dtype=_np.int64)[:, None] + start) * ext + off[None, :]).ravel()
        idx = (idx[:, None] + _np.arange(it)[None, :]).ravel()[:len(data)]
        if len(idx) and idx.max() >= len(self.raw):
            raise Exception(15, 'MPI_ERR_TRUNCATE: message truncated')
        self.raw[idx] = data

    def blocks(self, size):
        '''(start, count) of the block of each rank, in datatype instances.'''
        if self.counts is None:
            if self.displs is not None:
                raise ValueError('message: displacements without counts')
            if self.n % size:
                raise ValueError('message: buffer length is not a multiple of the number of blocks')
            c = [self.n // size] * size
        elif isinstance(self.counts, (int, _np.integer)):
            c = [_index(self.counts)] * size
        else:
            c = [_index(x) for x in self.counts]
        if self.displs is None:
            d = [0] * size
            for i in range(1, size):
                d[i] = d[i - 1] + c[i - 1]
        else:
            d = [_index(x) for x in self.displs]
        return list(zip(d, c))

    def vblocks(self, size):
        '''same, for the vector variants where missing counts are inferred.'''
        if self.counts is None:
            q, r = divmod(self.n, size)
            c = [q + (1 if i < r else 0) for i in range(size)]
            d = [0] * size
            for i in range(1, size):
                d[i] = d[i - 1] + c[i - 1]
            return list(zip(d, c))
        return self.blocks(size)


# --------------------------------------------------------------------------
# reduction operators
# --------------------------------------------------------------------------
class Op:
    def __init__(self, name, fobj, farr, commute=True):
        self._name, self._fobj, self._farr, self._commute = name, fobj, farr, commute

    @classmethod
    def Create(cls, function, commute=False):
        def farr(a, b):
            c = b.copy()
            function(a.view(_np.uint8), c.view(_np.uint8), None)
            return c
        o = cls('user', None, farr, commute)
        return o

    def Free(self):
        pass

    def Is_commutative(self):
        return self._commute

    is_predefined = True

    def __call__(self, a, b):
        return self._fobj(a, b)

    def Get_name(self):
        return self._name


def _maxloc(a, b):
    return a if a[0] > b[0] else (b if b[0] > a[0] else (a[0], min(a[1], b[1])))


def _minloc(a, b):
    return a if a[0] < b[0] else (b if b[0] < a[0] else (a[0], min(a[1], b[1])))


SUM = Op('SUM', lambda a, b: a + b, lambda a, b: a + b)
PROD = Op('PROD', lambda a, b: a * b, lambda a, b: a * b)
MAX = Op('MAX', lambda a, b: max(a, b), _np.maximum)
MIN = Op('MIN', lambda a, b: min(a, b), _np.minimum)
LAND = Op('LAND', lambda a, b: bool(a) & bool(b), _np.logical_and)
LOR = Op('LOR', lambda a, b: bool(a) | bool(b), _np.logical_or)
LXOR = Op('LXOR', lambda a, b: bool(a) ^ bool(b), _np.logical_xor)
BAND = Op('BAND', lambda a, b: a & b, _np.bitwise_and)
BOR = Op('BOR', lambda a, b: a | b, _np.bitwise_or)
BXOR = Op('BXOR', lambda a, b: a ^ b, _np.bitwise_xor)
MAXLOC = Op('MAXLOC', _maxloc, None)
MINLOC = Op('MINLOC', _minloc, None)
REPLACE = Op('REPLACE', lambda a, b: b, lambda a, b: b)
NO_OP = Op('NO_OP', lambda a, b: a, lambda a, b: a)
OP_NULL = None


def _opname(op):
    return op._name if isinstance(op, Op) else 'callable'


def trees(n):
    '''all ways to associate a reduction of n operands taken in rank order.'''
    def rec(i, j):
        if j - i == 1:
            return [i]
        out = []
        for k in range(i + 1, j):
            for l in rec(i, k):
                for r in rec(k, j):
                    out.append((l, r))
        return out
    return rec(0, n)


def _reduce_list(vals, f):
    '''reduce according to the association tree chosen by the environment.'''
    n = len(vals)
    sel = _env('assoc', 0)
    if n == 1:
        return vals[0]
    if sel == 0:
        r = vals[0]
        for v in vals[1:]:
            r = f(r, v)
        return r
    ts = trees(n)
    t = ts[sel % len(ts)]

    def ev(t):
        if isinstance(t, int):
            return vals[t]
        return f(ev(t[0]), ev(t[1]))
    return ev(t)


# --------------------------------------------------------------------------
# status / requests
# --------------------------------------------------------------------------
class Status:
    def __init__(self, *a):
        self._source = ANY_SOURCE
        self._tag = ANY_TAG
        self._nbytes = 0
        self.error = SUCCESS

    def Get_count(self, datatype=None):
        if datatype is None:
            return self._nbytes
        s = datatype.size
        if s == 0:
            return 0
        return self._nbytes // s if self._nbytes % s == 0 else UNDEFINED

    Get_elements = Get_count

    def Get_source(self):
        return self._source

    def Get_tag(self):
        return self._tag

    def Get_error(self):
        return self.error

    def Is_cancelled(self):
        return False

    @property
    def source(self):
        return self._source

    @property
    def tag(self):
        return self._tag

    @property
    def count(self):
        return self._nbytes

    def _set(self, src, tag, n):
        self._source, self._tag, self._nbytes = src, tag, n


class Request:
    def __init__(self, rid=None, kind=None, finish=None, check=None):
        self._rid = rid
        self._kind = kind
        self._finish = finish      # called with payload when completed
        self._check = check        # called before completion
        self._done = rid is None
        self._result = None

    def _complete(self, payload, status=None):
        if self._check is not None:
            self._check()
        if self._finish is not None:
            self._result = self._finish(payload, status)
        self._done = True
        self._rid = None

    # -- buffer variants
    def Wait(self, status=None):
        Request.Waitall([self], None if status is None else [status])
        return True

    def wait(self, status=None):
        Request.Waitall([self], None if status is None else [status])
        return self._result

    def Test(self, status=None):
        if self._done:
            return True
        rep = _call('test', [self._rid])
        if rep is None:
            return False
        self._complete(rep[0], status)
        return True

    def test(self, status=None):
        f = self.Test(status)
        return (f, self._result if f else None)

    def Free(self):
        self._done = True

    def Cancel(self):
        _call('cancel', self._rid)

    @classmethod
    def Waitall(cls, requests, statuses=None):
        reqs = list(requests)
        todo = [r for r in reqs if not r._done]
        if todo:
            rep = _call('wait', [r._rid for r in todo])
            by = {id(r): p for r, p in zip(todo, rep)}
            for i, r in enumerate(reqs):
                if id(r) in by and not r._done:
                    st = statuses[i] if statuses is not None and i < len(statuses) else None
                    r._complete(by[id(r)], st)
        return True

    @classmethod
    def waitall(cls, requests, statuses=None):
        cls.Waitall(requests, statuses)
        return [r._result for r in requests]

    @classmethod
    def Waitany(cls, requests, status=None):
        todo = [(i, r) for i, r in enumerate(requests) if not r._done]
        if not todo:
            return UNDEFINED
        k, payload = _call('waitany', [r._rid for _, r in todo])
        i, r = todo[k]
        r._complete(payload, status)
        return i

    @classmethod
    def waitany(cls, requests, status=None):
        i = cls.Waitany(requests, status)
        return (i, requests[i]._result if i != UNDEFINED else None)

    @classmethod
    def Waitsome(cls, requests, statuses=None):
        i = cls.Waitany(requests)
        return None if i == UNDEFINED else [i]

    @classmethod
    def Testall(cls, requests, statuses=None):
        return all([r.Test() for r in requests])

    @classmethod
    def testall(cls, requests, statuses=None):
        f = cls.Testall(requests)
        return (f, [r._result for r in requests] if f else None)

    @classmethod
    def Testany(cls, requests, status=None):
        for i, r in enumerate(requests):
            if not r._done and r.Test(status):
                return (i, True)
        return (UNDEFINED, all(r._done for r in requests))

    def __bool__(self):
        return not self._done


class Prequest(Request):
    pass


REQUEST_NULL = Request()


class Group:
    def __init__(self, ranks):
        self._ranks = ranks

    @property
    def size(self):
        return len(self._ranks)

    def Get_size(self):
        return len(self._ranks)

    def Incl(self, ranks):
        return Group([self._ranks[r] for r in ranks])

    def Free(self):
        pass


class Info(dict):
    @classmethod
    def Create(cls, items=None):
        return cls(items or {})

    def Set(self, k, v):
        self[k] = v

    def Get(self, k):
        return self.get(k)

    def Free(self):
        self.clear()


INFO_NULL = Info()


# --------------------------------------------------------------------------
# communicators
# --------------------------------------------------------------------------
class Comm:
    def __init__(self, cid=None, ranks=None, me=None):
        self._cid, self._ranks, self._me = cid, ranks, me

    # identity
    @property
    def rank(self):
        return self._ranks.index(self._me)

    @property
    def size(self):
        return len(self._ranks)

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    @property
    def name(self):
        return 'MPI_COMM_%s' % (self._cid,)

    def Get_name(self):
        return self.name

    def Set_name(self, n):
        pass

    @property
    def group(self):
        return Group(list(self._ranks))

    def Get_group(self):
        return self.group

    @property
    def is_intra(self):
        return True

    @property
    def is_inter(self):
        return False

    def Is_intra(self):
        return True

    def Is_inter(self):
        return False

    def Get_topology(self):
        return UNDEFINED

    def Set_errhandler(self, h):
        pass

    def Get_attr(self, k):
        return TAG_UB

    def py2f(self):
        return 0

    def Abort(self, errorcode=0):
        _call('abort', errorcode)

    def __bool__(self):
        return self._cid is not None

    def __eq__(self, o):
        return isinstance(o, Comm) and o._cid == self._cid

    def __hash__(self):
        return hash(self._cid)

    def __reduce__(self):
        raise TypeError('cannot pickle a communicator in the simulated MPI')

    def _coll(self, name, meta, payload=None, need='all', root=None):
        '''returns the payloads of the ranks this rank waited for (dict by comm rank).'''
        if self._cid is None:
            raise Exception(5, 'MPI_ERR_COMM: invalid communicator')
        return _call('coll', self._cid, self.rank, self.size, name, meta, payload, need, root)

    def _icoll(self, name, meta, payload, need, root=None):
        return _call('icoll', self._cid, self.rank, self.size, name, meta, payload, need, root)

    def _chkroot(self, root):
        if not (0 <= root < self.size):
            raise Exception(8, 'MPI_ERR_ROOT: invalid root')

    # -- barrier
    def Barrier(self):
        self._coll('Barrier', ())

    def barrier(self):
        self.Barrier()

    def Ibarrier(self):
        return Request(self._icoll('Ibarrier', (), None, 'all'), 'icoll')

    # -- lower-case collectives
    def bcast(self, obj, root=0):
        self._chkroot(root)
        me = self.rank
        p = pickle.dumps(obj) if me == root else None
        r = self._coll('bcast', (root,), p, 'self' if me == root else 'root', root)
        if me == root:
            return obj
        return pickle.loads(r[root])

    def gather(self, sendobj, root=0):
        self._chkroot(root)
        me = self.rank
        r = self._coll('gather', (root,), pickle.dumps(sendobj), 'all' if me == root else 'self', root)
        return [pickle.loads(r[i]) for i in range(self.size)] if me == root else None

    def scatter(self, sendobj, root=0):
        self._chkroot(root)
        me = self.rank
        p = None
        if me == root:
            sendobj = list(sendobj)
            if len(sendobj) != self.size:
                raise ValueError('expecting %d items, got %d' % (self.size, len(sendobj)))
            p = [pickle.dumps(x) for x in sendobj]
        r = self._coll('scatter', (root,), p, 'self' if me == root else 'root', root)
        return pickle.loads(p[me]) if me == root else pickle.loads(r[root][me])

    def allgather(self, sendobj):
        r = self._coll('allgather', (), pickle.dumps(sendobj))
        return [pickle.loads(r[i]) for i in range(self.size)]

    def alltoall(self, sendobj):
        sendobj = list(sendobj)
        if len(sendobj) != self.size:
            raise ValueError('expecting %d items, got %d' % (self.size, len(sendobj)))
        r = self._coll('alltoall', (), [pickle.dumps(x) for x in sendobj])
        return [pickle.loads(r[i][self.rank]) for i in range(self.size)]

    def reduce(self, sendobj, op=SUM, root=0):
        self._chkroot(root)
        me = self.rank
        r = self._coll('reduce', (root, _opname(op)), pickle.dumps(sendobj), 'all' if me == root else 'self', root)
        if me != root:
            return None
        return _reduce_list([pickle.loads(r[i]) for i in range(self.size)], op)

    def allreduce(self, sendobj, op=SUM):
        r = self._coll('allreduce', (_opname(op),), pickle.dumps(sendobj))
        return _reduce_list([pickle.loads(r[i]) for i in range(self.size)], op)

    def scan(self, sendobj, op=SUM):
        r = self._coll('scan', (_opname(op),), pickle.dumps(sendobj), 'prefix')
        return _reduce_list([pickle.loads(r[i]) for i in range(self.rank + 1)], op)

    def exscan(self, sendobj, op=SUM):
        r = self._coll('exscan', (_opname(op),), pickle.dumps(sendobj), 'xprefix')
        if self.rank == 0:
            return None
        return _reduce_list([pickle.loads(r[i]) for i in range(self.rank)], op)

    # -- upper-case collectives
    def Bcast(self, buf, root=0):
        self._chkroot(root)
        me = self.rank
        m = _Msg(buf, readonly=(me == root))
        nb = m.n * m.dt.size
        p = m.pack() if me == root else None
        r = self._coll('Bcast', (root, nb), p, 'self' if me == root else 'root', root)
        if me != root:
            m.unpack(r[root])

    def _np(self, m, b):
        return _np.frombuffer(b, dtype=m.dt._np).copy()

    def _redmsgs(self, sendbuf, recvbuf):
        rm = _Msg(recvbuf, readonly=False)
        sm = rm if sendbuf is IN_PLACE else _Msg(sendbuf, readonly=True)
        if sm is not rm and (sm.n * sm.dt.size != rm.n * rm.dt.size or sm.dt._np != rm.dt._np):
            if sm.dt._np != rm.dt._np:
                raise ValueError('mismatch in send and receive MPI datatypes')
            raise ValueError('mismatch in send count %d and receive count %d' % (sm.n, rm.n))
        return sm, rm

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        sm, rm = self._redmsgs(sendbuf, recvbuf)
        r = self._coll('Allreduce', (_opname(op), sm.dt._np.str, sm.n), sm.pack())
        v = _reduce_list([self._np(sm, r[i]) for i in range(self.size)], op._farr)
        rm.unpack(_np.asarray(v).astype(rm.dt._np).tobytes())

    def Iallreduce(self, sendbuf, recvbuf, op=SUM):
        sm, rm = self._redmsgs(sendbuf, recvbuf)
        rid = self._icoll('Iallreduce', (_opname(op), sm.dt._np.str, sm.n), sm.pack(), 'all')

        def fin(r, st):
            v = _reduce_list([self._np(sm, r[i]) for i in range(self.size)], op._farr)
            rm.unpack(_np.asarray(v).astype(rm.dt._np).tobytes())
        return Request(rid, 'icoll', fin)

    def Reduce(self, sendbuf, recvbuf, op=SUM, root=0):
        self._chkroot(root)
        me = self.rank
        if me == root:
            sm, rm = self._redmsgs(sendbuf, recvbuf)
        else:
            sm = _Msg(sendbuf, readonly=True)
        r = self._coll('Reduce', (root, _opname(op), sm.dt._np.str, sm.n), sm.pack(),
                       'all' if me == root else 'self', root)
        if me == root:
            v = _reduce_list([self._np(sm, r[i]) for i in range(self.size)], op._farr)
            rm.unpack(_np.asarray(v).astype(rm.dt._np).tobytes())

    def Reduce_scatter_block(self, sendbuf, recvbuf, op=SUM):
        sm = _Msg(sendbuf, readonly=True)
        rm = _Msg(recvbuf, readonly=False)
        r = self._coll('Reduce_scatter_block', (_opname(op), sm.dt._np.str, sm.n), sm.pack())
        v = _reduce_list([self._np(sm, r[i]) for i in range(self.size)], op._farr)
        rm.unpack(v[self.rank * rm.n:(self.rank + 1) * rm.n].tobytes())

    def Scan(self, sendbuf, recvbuf, op=SUM):
        sm, rm = self._redmsgs(sendbuf, recvbuf)
        r = self._coll('Scan', (_opname(op), sm.dt._np.str, sm.n), sm.pack(), 'prefix')
        v = _reduce_list([self._np(sm, r[i]) for i in range(self.rank + 1)], op._farr)
        rm.unpack(_np.asarray(v).tobytes())

    def Exscan(self, sendbuf, recvbuf, op=SUM):
        sm, rm = self._redmsgs(sendbuf, recvbuf)
        r = self._coll('Exscan', (_opname(op), sm.dt._np.str, sm.n), sm.pack(), 'xprefix')
        if self.rank > 0:
            v = _reduce_list([self._np(sm, r[i]) for i in range(self.rank)], op._farr)
            rm.unpack(_np.asarray(v).tobytes())

    def _gather_fin(self, rm, vec, me):
        def fin(r, st=None):
            bl = rm.vblocks(self.size) if vec else rm.blocks(self.size)
            for i, (d, c) in enumerate(bl):
                data = r[i]
                if data is None:
                    continue
                if len(data) > c * rm.dt.size:
                    raise Exception(15, 'MPI_ERR_TRUNCATE: message truncated')
                if not vec and len(data) != c * rm.dt.size:
                    raise Exception(15, 'MPI_ERR_COUNT: send and receive counts differ')
                rm.unpack(data, d)
        return fin

    def _gsetup(self, sendbuf, recvbuf, root, vec, name, allg):
        me = self.rank
        isroot = allg or me == root
        rm = _Msg(recvbuf, readonly=False) if isroot else None
        if sendbuf is IN_PLACE:
            p = None
            if allg:
                d, c = (rm.vblocks(self.size) if vec else rm.blocks(self.size))[me]
                p = rm.pack(d, c)
        else:
            sm = _Msg(sendbuf, readonly=True)
            p = sm.pack()
        return rm, p, isroot

    def Gather(self, sendbuf, recvbuf, root=0, _name='Gather', _vec=False):
        self._chkroot(root)
        rm, p, isroot = self._gsetup(sendbuf, recvbuf, root, _vec, _name, False)
        r = self._coll(_name, (root,), p, 'all' if isroot else 'self', root)
        if isroot:
            self._gather_fin(rm, _vec, root)(r)

    def Gatherv(self, sendbuf, recvbuf, root=0):
        self.Gather(sendbuf, recvbuf, root, 'Gatherv', True)

    def Igather(self, sendbuf, recvbuf, root=0, _name='Igather', _vec=False):
        self._chkroot(root)
        rm, p, isroot = self._gsetup(sendbuf, recvbuf, root, _vec, _name, False)
        rid = self._icoll(_name, (root,), p, 'all' if isroot else 'self', root)
        sm = None if sendbuf is IN_PLACE else _Msg(sendbuf, readonly=True)
        chk = None if sm is None else _sendcheck(sm, p)
        return Request(rid, 'icoll', self._gather_fin(rm, _vec, root) if isroot else None, chk)

    def Igatherv(self, sendbuf, recvbuf, root=0):
        return self.Igather(sendbuf, recvbuf, root, 'Igatherv', True)

    def Allgather(self, sendbuf, recvbuf, _name='Allgather', _vec=False):
        rm, p, _ = self._gsetup(sendbuf, recvbuf, 0, _vec, _name, True)
        r = self._coll(_name, (), p)
        self._gather_fin(rm, _vec, None)(r)

    def Allgatherv(self, sendbuf, recvbuf):
        self.Allgather(sendbuf, recvbuf, 'Allgatherv', True)

    def Scatter(self, sendbuf, recvbuf, root=0, _name='Scatter', _vec=False):
        self._chkroot(root)
        me = self.rank
        p = None
        if me == root:
            sm = _Msg(sendbuf, readonly=True)
            p = [sm.pack(d, c) for d, c in (sm.vblocks(self.size) if _vec else sm.blocks(self.size))]
        r = self._coll(_name, (root,), p, 'self' if me == root else 'root', root)
        if recvbuf is IN_PLACE:
            return
        rm = _Msg(recvbuf, readonly=False)
        data = p[me] if me == root else r[root][me]
        if len(data) > rm.n * rm.dt.size:
            raise Exception(15, 'MPI_ERR_TRUNCATE: message truncated')
        rm.unpack(data)

    def Scatterv(self, sendbuf, recvbuf, root=0):
        self.Scatter(sendbuf, recvbuf, root, 'Scatterv', True)

    def Alltoall(self, sendbuf, recvbuf, _name='Alltoall', _vec=False):
        rm = _Msg(recvbuf, readonly=False)
        if sendbuf is IN_PLACE:
            sm = rm
        else:
            sm = _Msg(sendbuf, readonly=True)
        sb = sm.vblocks(self.size) if _vec else sm.blocks(self.size)
        r = self._coll(_name, (), [sm.pack(d, c) for d, c in sb])
        for i, (d, c) in enumerate(rm.vblocks(self.size) if _vec else rm.blocks(self.size)):
            data = r[i][self.rank]
            if len(data) > c * rm.dt.size:
                raise Exception(15, 'MPI_ERR_TRUNCATE: message truncated')
            rm.unpack(data, d)

    def Alltoallv(self, sendbuf, recvbuf):
        self.Alltoall(sendbuf, recvbuf, 'Alltoallv', True)

    # -- point to point
    def _dst(self, dest):
        if dest == PROC_NULL:
            return PROC_NULL
        if not (0 <= dest < self.size):
            raise Exception(6, 'MPI_ERR_RANK: invalid rank')
        return dest

    def Isend(self, buf, dest, tag=0):
        d = self._dst(dest)
        m = _Msg(buf, readonly=True)
        p = m.pack()
        if d == PROC_NULL:
            return Request()
        rid = _call('isend', self._cid, self.rank, d, tag, p)
        return Request(rid, 'send', None, _sendcheck(m, p))

    Issend = Irsend = Ibsend = Isend

    def Send(self, buf, dest, tag=0):
        self.Isend(buf, dest, tag).Wait()

    Ssend = Rsend = Bsend = Send

    def Irecv(self, buf, source=ANY_SOURCE, tag=ANY_TAG):
        m = _Msg(buf, readonly=False)
        if source == PROC_NULL:
            return Request()
        if source != ANY_SOURCE:
            self._dst(source)
        early = {}

        def fin(payload, st):
            data, src, tg = payload
            if len(data) > m.n * m.dt.size:
                raise Exception(15, 'MPI_ERR_TRUNCATE: message truncated')
            if not early:
                m.unpack(data)
            if st is not None:
                st._set(src, tg, len(data))
        rid = _call('irecv', self._cid, self.rank, source, tag)
        req = Request(rid, 'recv', fin)
        if _env('p2p_deliver', 'late') == 'early':
            def deliver(payload):
                data = payload[0]
                if len(data) <= m.n * m.dt.size:
                    m.unpack(data)
                    early['done'] = True
            _LINK.early[rid] = deliver
        return req

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self.Irecv(buf, source, tag).Wait(status)

    def isend(self, obj, dest, tag=0):
        d = self._dst(dest)
        if d == PROC_NULL:
            return Request()
        return Request(_call('isend', self._cid, self.rank, d, tag, pickle.dumps(obj)), 'send')

    issend = ibsend = isend

    def send(self, obj, dest, tag=0):
        self.isend(obj, dest, tag).wait()

    ssend = bsend = send

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        if source == PROC_NULL:
            return Request()

        def fin(payload, st):
            data, src, tg = payload
            if st is not None:
                st._set(src, tg, len(data))
            return pickle.loads(data)
        return Request(_call('irecv', self._cid, self.rank, source, tag), 'recv', fin)

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        return self.irecv(buf, source, tag).wait(status)

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        r = self.Irecv(recvbuf, source, recvtag)
        s = self.Isend(sendbuf, dest, sendtag)
        Request.Waitall([r, s], None if status is None else [status, Status()])

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        r = self.irecv(recvbuf, source, recvtag)
        s = self.isend(sendobj, dest, sendtag)
        Request.Waitall([r, s], None if status is None else [status, Status()])
        return r._result

    def Probe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        src, tg, n = _call('probe', self._cid, self.rank, source, tag)
        if status is not None:
            status._set(src, tg, n)
        return True

    probe = Probe

    def Iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        r = _call('iprobe', self._cid, self.rank, source, tag)
        if r is None:
            return False
        if status is not None:
            status._set(*r)
        return True

    iprobe = Iprobe

    # -- communicator constructors
    def _make(self, name, meta, color, key, cls=None):
        r = self._coll('mkcomm:' + name, meta, pickle.dumps((color, key)))
        cks = [pickle.loads(r[i]) for i in range(self.size)]
        if color is None or color == UNDEFINED:
            return COMM_NULL
        mem = [(cks[i][1], i) for i in range(self.size) if cks[i][0] == color]
        ranks = [self._ranks[i] for _, i in sorted(mem)]
        n = _LINK.nextcid(self._cid)
        cid = (self._cid, n, color)
        return (cls or Intracomm)(cid, ranks, self._me)

    def Dup(self, info=None):
        return self._make('dup', (), 0, self.rank, type(self))

    Clone = Dup
    dup = Dup

    def Split(self, color=0, key=0):
        return self._make('split', (), color, key)

    def Split_type(self, split_type, key=0, info=None):
        return self._make('split_type', (split_type,), 0, key)

    def Create(self, group):
        inn = self._me in group._ranks
        return self._make('create', (tuple(group._ranks),), 0 if inn else None,
                          group._ranks.index(self._me) if inn else 0)

    def Create_cart(self, dims, periods=None, reorder=False):
        dims = [int(d) for d in (dims if hasattr(dims, '__len__') else [dims])]
        n = 1
        for d in dims:
            n *= d
        if n > self.size:
            raise Exception(12, 'MPI_ERR_ARG: grid larger than communicator')
        me = self.rank
        c = self._make('cart', (tuple(dims),), 0 if me < n else None, me, Cartcomm)
        if c is not COMM_NULL:
            c._dims = dims
        return c

    def Free(self):
        self._coll('Free', (), None, 'self')
        self._cid = None

    free = Free
    Disconnect = Free


class Intracomm(Comm):
    pass


class Intercomm(Comm):
    pass


class Cartcomm(Intracomm):
    _dims = None

    @property
    def dims(self):
        return self._dims

    @property
    def ndim(self):
        return len(self._dims)

    def Get_dim(self):
        return len(self._dims)

    def Get_topo(self):
        return (self._dims, [0] * len(self._dims), self.Get_coords(self.rank))

    @property
    def coords(self):
        return self.Get_coords(self.rank)

    def Get_coords(self, rank):
        return [int(x) for x in _np.unravel_index(rank, self._dims)]

    def Get_cart_rank(self, coords):
        return int(_np.ravel_multi_index(coords, self._dims))

    def Sub(self, remain_dims):
        co = self.Get_coords(self.rank)
        color = tuple(c for c, k in zip(co, remain_dims) if not k)
        kept = tuple(c for c, k in zip(co, remain_dims) if k)
        c = self._make('sub', (tuple(bool(x) for x in remain_dims),), color, kept, Cartcomm)
        c._dims = [d for d, k in zip(self._dims, remain_dims) if k]
        return c


class _CommNull(Comm):
    def __bool__(self):
        return False


COMM_NULL = _CommNull()


class _World(Intracomm):
    '''COMM_WORLD: resolved when used.'''

    def __init__(self, selfonly=False):
        self._selfonly = selfonly

    @property
    def _cid(self):
        if _LINK is None:
            return None
        return ('self', _LINK.rank) if self._selfonly else ('world',)

    @property
    def _me(self):
        return 0 if _LINK is None else _LINK.rank

    @property
    def _ranks(self):
        if _LINK is None:
            return [0]
        return [_LINK.rank] if self._selfonly else list(range(_LINK.size))


COMM_WORLD = _World()
COMM_SELF = _World(True)


def _sendcheck(m, snapshot):
    def chk():
        if m.pack() != snapshot:
            _LINK.note('send buffer modified while the send was in flight')
    return chk


def Compute_dims(nnodes, dims):
    if isinstance(dims, int):
        dims = [0] * dims
    dims = list(dims)
    free = [i for i, d in enumerate(dims) if d == 0]
    n = nnodes
    for d in dims:
        if d:
            n //= d
    out = [1] * len(free)
    f, p = [], 2
    while n > 1:
        while n % p == 0:
            f.append(p)
            n //= p
        p += 1
    for x in sorted(f, reverse=True):
        k = out.index(min(out))
        out[k] *= x
    out.sort(reverse=True)
    for i, v in zip(free, out):
        dims[i] = v
    return dims


# --------------------------------------------------------------------------
# MPI-IO
# --------------------------------------------------------------------------
class File:
    def __init__(self, other=None):
        if other is not None:
            self.__dict__ = other.__dict__     # same handle, same file pointer

    @classmethod
    def Open(cls, comm, filename, amode=MODE_RDONLY, info=None):
        filename = os.fspath(filename)
        f = cls.__new__(cls)
        f._comm, f._path, f._amode = comm, os.path.abspath(filename), amode
        f._disp, f._et, f._ft, f._pos, f._open = 0, BYTE, None, 0, True  # noqa
        me = comm.rank
        meta = (f._path, amode)
        if not (amode & (MODE_RDONLY | MODE_WRONLY | MODE_RDWR)):
            raise Exception(21, 'MPI_ERR_AMODE: invalid access mode')
        if amode & MODE_CREATE:
            if amode & MODE_RDONLY:
                raise Exception(21, 'MPI_ERR_AMODE: invalid access mode')
            if me == 0:
                err = None
                try:
                    _LINK.fs('create', f._path, None)
                    flags = os.O_CREAT | os.O_WRONLY
                    if amode & MODE_EXCL:
                        flags |= os.O_EXCL
                    fd = _LINK.real.os_open(f._path, flags, 0o644)
                    os.close(fd)
                except OSError as e:
                    err = str(e)
                comm._coll('File.Open', meta, err, 'self', 0)
            else:
                err = comm._coll('File.Open', meta, None, 'root', 0)[0]
            if err:
                raise Exception(ERR_FILE, 'MPI_ERR_NO_SUCH_FILE: ' + err)
        else:
            comm._coll('File.Open', meta, None, 'self', 0)
            _LINK.fs('openr', f._path, None)
            if not _LINK.real.exists(f._path):
                raise Exception(ERR_NO_SUCH_FILE, 'MPI_ERR_NO_SUCH_FILE: no such file or directory: ' + f._path)
        if amode & MODE_APPEND:
            f._pos = _LINK.real.getsize(f._path)
        return f

    def _chk(self):
        if not self._open:
            raise Exception(ERR_FILE, 'MPI_ERR_FILE: invalid file')

    def _collf(self, name, meta=()):
        self._chk()
        self._comm._coll('File.' + name, (self._path,) + tuple(meta), None, 'self', 0)

    def Set_size(self, size):
        self._chk()
        size = _index(size)
        me = self._comm.rank
        if me == 0:
            _LINK.fs('truncate', self._path, None, size)
            _LINK.real.truncate(self._path, size)
            self._comm._coll('File.Set_size', (self._path, size), None, 'self', 0)
        else:
            self._comm._coll('File.Set_size', (self._path, size), None, 'root', 0)

    def Preallocate(self, size):
        self._collf('Preallocate', (int(size),))

    def Get_size(self):
        self._chk()
        _LINK.fs('read', self._path, None)
        return _LINK.real.getsize(self._path)

    def Get_amode(self):
        return self._amode

    amode = property(Get_amode)
    size = property(Get_size)

    def Set_view(self, disp=0, etype=None, filetype=None, datarep='native', info=None):
        self._chk()
        et = BYTE if etype is None else etype  # noqa
        et._chk()
        ft = et if filetype is None else filetype
        ft._chk()
        if not ft._committed or not et._committed:
            raise Exception(3, 'MPI_ERR_TYPE: datatype not committed')
        # etype and disp extents must agree on all ranks only for shared pointers; filetypes may differ
        self._comm._coll('File.Set_view', (self._path, et.extent), None, 'self', 0)
        self._disp, self._et, self._pos = int(disp), et.Dup(), 0
        self._ft = ft.Dup()
        self._et._freed = self._ft._freed = False

    def _extents(self, off_et, nbytes):
        '''file byte positions of nbytes of view data starting at etype offset.'''
        if self._ft is None or self._ft._off is None:
            s = self._disp + off_et * self._et.size
            return _np.arange(s, s + nbytes, dtype=_np.int64)
        ft = self._ft
        it = ft._np.itemsize
        per = len(ft._off) * it
        if nbytes == 0:
            return _np.zeros(0, dtype=_np.int64)
        if per == 0:
            raise Exception(ERR_FILE, 'MPI_ERR_IO: access through an empty view')
        start = off_et * self._et.size
        k = _np.arange(start, start + nbytes, dtype=_np.int64)
        tile, w = k // per, k % per
        return self._disp + tile * ft.extent + _np.asarray(ft._off)[w // it] + w % it

    def _wr(self, buf, off):
        m = _Msg(buf, readonly=True)
        data = m.pack()
        ext = self._extents(off, len(data))
        if not (self._amode & (MODE_WRONLY | MODE_RDWR)):
            raise Exception(20, 'MPI_ERR_ACCESS: file opened read-only')
        _LINK.fs('write', self._path, ext, bytes(data))
        if len(data):
            a = _np.frombuffer(data, _np.uint8)
            fd = _LINK.real.os_open(self._path, os.O_RDWR)
            try:
                brk = _np.flatnonzero(_np.diff(ext) != 1) + 1
                for s, e in zip([0, *brk], [*brk, len(ext)]):
                    os.pwrite(fd, a[s:e].tobytes(), int(ext[s]))
            finally:
                os.close(fd)
        return len(data)

    def _rd(self, buf, off):
        m = _Msg(buf, readonly=False)
        n = m.n * m.dt.size
        ext = self._extents(off, n)
        if not (self._amode & (MODE_RDONLY | MODE_RDWR)):
            raise Exception(20, 'MPI_ERR_ACCESS: file opened write-only')
        _LINK.fs('read', self._path, ext)
        if n == 0:
            return 0
        with _LINK.real.open(self._path, 'rb') as fh:
            content = _np.frombuffer(fh.read(), _np.uint8)
        ok = ext < len(content)
        got = int(ok.argmin()) if not ok.all() else len(ext)
        m.unpack(content[ext[:got]].tobytes())
        return got

    def _adv(self, n):
        self._pos += n // self._et.size

    def Write(self, buf, status=None):
        self._chk()
        n = self._wr(buf, self._pos)
        self._adv(n)
        if status is not None:
            status._set(0, 0, n)

    def Write_all(self, buf, status=None):
        self._collf('Write_all')
        self.Write(buf, status)

    def Write_at(self, offset, buf, status=None):
        self._chk()
        n = self._wr(buf, int(offset))
        if status is not None:
            status._set(0, 0, n)

    def Write_at_all(self, offset, buf, status=None):
        self._collf('Write_at_all')
        self.Write_at(offset, buf, status)

    def Read(self, buf, status=None):
        self._chk()
        n = self._rd(buf, self._pos)
        self._adv(n)
        if status is not None:
            status._set(0, 0, n)

    def Read_all(self, buf, status=None):
        self._collf('Read_all')
        self.Read(buf, status)

    def Read_at(self, offset, buf, status=None):
        self._chk()
        n = self._rd(buf, int(offset))
        if status is not None:
            status._set(0, 0, n)

    def Read_at_all(self, offset, buf, status=None):
        self._collf('Read_at_all')
        self.Read_at(offset, buf, status)

    def Seek(self, offset, whence=SEEK_SET):
        self._chk()
        if whence == SEEK_SET:
            self._pos = int(offset)
        elif whence == SEEK_CUR:
            self._pos += int(offset)
        else:
            self._pos = _LINK.real.getsize(self._path) // self._et.size + int(offset)

    def Get_position(self):
        return self._pos

    def Get_byte_offset(self, off):
        return int(self._extents(off, 1)[0])

    def Sync(self):
        self._collf('Sync')

    def Set_atomicity(self, flag):
        self._collf('Set_atomicity', (bool(flag),))

    def Get_atomicity(self):
        return False

    def Close(self):
        self._collf('Close')
        self._open = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if self._open:
            self.Close()

    def __bool__(self):
        return self._open

    @classmethod
    def Delete(cls, filename, info=None):
        os.remove(filename)


FILE_NULL = File.__new__(File)
FILE_NULL._open = False


# --------------------------------------------------------------------------
# misc
# --------------------------------------------------------------------------
def Wtime():
    return _time.time()


def Wtick():
    return 1e-6


def Get_processor_name():
    return 'sim'


def Get_version():
    return (VERSION, SUBVERSION)


def Get_library_version():
    return 'simulated MPI'


def Is_initialized():
    return True


def Is_finalized():
    return False


def Init():
    pass


def Init_thread(required=THREAD_MULTIPLE):
    return THREAD_MULTIPLE


def Finalize():
    pass


def Query_thread():
    return THREAD_MULTIPLE


def Get_address(buf):
    return _np.asarray(buf).__array_interface__['data'][0]


def memory_allocate(n):
    return bytearray(n)


def Alloc_mem(size, info=None):
    return bytearray(size)


def Free_mem(mem):
    pass
