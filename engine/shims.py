"""Replacement builtins and library modules for the rewritten code, and the loader."""
import builtins as B_
import os
import sys
import types
import numpy as np
from . import terms as t
from . import core, loops, arrays, instrument, modstate
from . import values as V
from .core import Unsupported, eng
from .values import (SymInt, SymBool, SymFloat, SBytes, SStr, SList, SDict, SByteArray, Poison, Heap, toT, toF, mkint,
                     mkbool, toB, as_sbytes, s_not, norm_bytes)
from .arrays import SArr, SRec, SDtype, NpInt, NpFloat, MaskSel
from .ops import Op, TypeProxy, nat, is_sym, deep_sym, native_seq, SSet, contains
from . import ops

SRC = os.environ.get('VERIF_REPO', '/repo') + '/src'


# ================================================================ builtins
def s_len(x):
    f = getattr(type(x), '__symlen__', None)
    if f is not None:
        return f(x)
    if isinstance(x, MaskSel):
        raise Unsupported('length of a selection')
    return len(x)


def s_range(*a):
    if len(a) == 1:
        a, b, s = 0, a[0], 1
    elif len(a) == 2:
        (a, b), s = a, 1
    else:
        a, b, s = a
    ta, tb, ts = toT(a), toT(b), toT(s)
    if ta is None or tb is None or ts is None:
        raise TypeError('range() argument must be an integer')
    if ts.m:
        raise Unsupported('range with symbolic step')
    if not ta.m and not tb.m:
        return range(ta.c, tb.c, ts.c)
    return loops.SymRange(ta, tb, ts.c)


def classes(c):
    c = nat(c)
    if isinstance(c, tuple):
        out = []
        for x in c:
            out += classes(x)
        return out
    return [c]


def s_isinstance(x, c):
    for k in classes(c):
        if k is object:
            return True
        isa = getattr(type(x), '__isa__', None)
        if isa is not None:
            if x.__isa__(k):
                return True
            continue
        if isinstance(x, NpInt):
            if k in (np.generic, np.number, np.integer) or (isinstance(k, type) and issubclass(x.dt.type, k)):
                return True
            continue
        if isinstance(x, NpFloat):
            if k in (np.generic, np.number, np.floating) or (isinstance(k, type) and issubclass(x.dt.type, k)):
                return True
            continue
        if isinstance(x, SymInt):
            if k is int:
                return True
        elif isinstance(x, SymBool):
            if k in (bool, int):
                return True
        elif isinstance(x, SymFloat):
            if k is float:
                return True
        elif isinstance(x, SList):
            if k is list:
                return True
        elif isinstance(x, SDict):
            if k is dict:
                return True
        elif isinstance(x, SBytes):
            if k is bytes:
                return True
        elif isinstance(x, SByteArray):
            if k is bytearray:
                return True
        elif isinstance(x, SStr):
            if k is str:
                return True
        elif isinstance(x, (SArr, MaskSel)):
            if k is np.ndarray:
                return True
        elif isinstance(x, Poison):
            x._die()
        elif isinstance(k, type) and isinstance(x, k):
            return True
        elif not isinstance(k, type) and isinstance(x, k):
            return True
    return False


def s_int(x=0, *a):
    if isinstance(x, (SymInt, SymBool)):
        return mkint(toT(x))
    if isinstance(x, SArr) and x.ndim == 0:
        return s_int(x.item0())
    if isinstance(x, SArr):
        if eng().decide(t.eq(toT(x.size), t.ONE)):
            raise Unsupported('int of array')
        raise TypeError('only length-1 arrays can be converted to Python scalars')
    if isinstance(x, SymFloat):
        raise Unsupported('float to int')
    if is_sym(x):
        raise Unsupported('int() of symbolic')
    if hasattr(x, '__symint__') and not a:
        return x.__symint__()
    return int(x, *a)


def from_bytes(b, byteorder='big', *, signed=False):
    b = as_sbytes(b)
    n = b.tlen()
    if n.m:
        n = t.const(mkint(n).__index__())
    k = n.c
    if byteorder == 'little' and k in (1, 2, 4, 8):
        return mkint(b.load(('i' if signed else 'u') + str(k), k, t.ZERO))
    out = t.ZERO
    for i in range(k):
        w = 8 * i if byteorder == 'little' else 8 * (k - 1 - i)
        out = t.add(out, t.scale(b.byte(t.const(i)), 1 << w))
    if signed and k:
        return V.wrap(out, 8 * k, True)
    return mkint(out)


def s_bool(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymInt):
        return s_not(mkbool(t.eq0(x.t)))
    if isinstance(x, SymFloat):
        return s_not(V.f_cmp('eq', x, 0.0))
    return bool(x)


def s_float(x=0.0):
    if isinstance(x, SymFloat):
        return SymFloat(x.f)
    if isinstance(x, (SymInt, SymBool)):
        return SymFloat(toF(x))
    if isinstance(x, SArr) and x.ndim == 0:
        return s_float(x.item0())
    if is_sym(x):
        raise Unsupported('float() of symbolic')
    return float(x)


def s_str(*a):
    if a and deep_sym(a[0]):
        if isinstance(a[0], (SBytes, SByteArray)) and len(a) > 1:
            return a[0].decode(*a[1:])
        if isinstance(a[0], SStr):
            return a[0]
        return '<symstr>'
    return str(*a)


def s_bytes(x=b'', *a):
    if isinstance(x, SByteArray):
        return norm_bytes(x.value)
    if isinstance(x, SBytes):
        return x
    if isinstance(x, SymInt):
        return ops.repeat_seq(b'\0', x)
    if isinstance(x, SStr):
        return x.encode(*a)
    if isinstance(x, SList):
        return norm_bytes(SBytes([('t', [toT(q) for q in x.native()])]))
    return bytes(x, *a)


def s_bytearray(x=b'', *a):
    return SByteArray(x if not a else x.encode(*a))


def s_zip(*its, strict=False):
    if any(hasattr(i, '__symiter__') for i in its):
        return loops.SymZip(its, strict)
    return zip(*its, strict=strict)


def s_enumerate(it, start=0):
    if hasattr(it, '__symiter__'):
        return loops.SymEnumerate(it, start)
    return enumerate(it, start)


def s_reversed(it):
    if hasattr(it, '__symiter__'):
        return loops.SymReversed(it)
    return reversed(it)


def s_sum(it, start=0):
    if isinstance(it, SArr):
        raise Unsupported('sum of array')
    if isinstance(it, SList) and not it.is_native() or hasattr(it, '__symiter__') and not isinstance(it, SList):
        acc = [start]

        def body(x, c=acc):
            nonlocal start
            start = start + x
        loops.for_(it, body)
        return start
    acc = start
    for x in native_seq(it):
        acc = acc + x
    return acc


def _pick(xs, key, better):
    best = None
    for x in xs:
        k = key(x) if key else x
        if best is None:
            best = (x, k)
            continue
        a, b = toT(k), toT(best[1])
        if a is not None and b is not None and key is None:
            c = t.lt(a, b) if better == 'min' else t.lt(b, a)
            q = eng().quick(c)
            if q is None:
                v = mkint(t.ite(c, a, b))
                best = (v, v)
            elif q:
                best = (x, k)
            continue
        r = (k < best[1]) if better == 'min' else (k > best[1])
        if r:
            best = (x, k)
    return best[0]


def s_min(*a, key=None, **kw):
    xs = native_seq(a[0]) if len(a) == 1 else a
    if not xs:
        if 'default' in kw:
            return kw['default']
        raise ValueError('min() arg is an empty sequence')
    return _pick(xs, key, 'min')


def s_max(*a, key=None, **kw):
    xs = native_seq(a[0]) if len(a) == 1 else a
    if not xs:
        if 'default' in kw:
            return kw['default']
        raise ValueError('max() arg is an empty sequence')
    return _pick(xs, key, 'max')


def s_dict(*a, **kw):
    return SDict(*a, **kw)


def s_list(x=()):
    if isinstance(x, SList):
        return x.copy()
    if hasattr(x, '__symiter__'):
        out = SList()
        loops.for_(x, lambda v: out.append(v))
        return out
    return SList(list(x))


def s_tuple(x=()):
    return tuple(native_seq(x))


def s_set(x=()):
    if hasattr(x, 'minus'):
        return x
    if isinstance(x, SDict) and not x.is_native():
        return x.keys()
    xs = list(native_seq(x))
    if any(is_sym(q) for q in xs):
        return SSet(xs)
    return set(xs)


def s_frozenset(x=()):
    r = s_set(x)
    return frozenset(r) if isinstance(r, set) else r


def s_hex(x):
    if isinstance(x, SymInt):
        return Tok('hex', x.t)
    return hex(x)


class Tok:
    """opaque result of a library function"""
    __hash__ = None

    def __init__(self, name, *args):
        self.name = name
        self.args = args

    def key(self):
        return (self.name,) + tuple(self.args)

    def __eq__(self, o):
        if isinstance(o, Tok):
            if self.name != o.name or len(self.args) != len(o.args):
                return False
            return mkbool(t.band(*[toB(tok_eq(a, b)) for a, b in zip(self.args, o.args)]))
        return False

    def __ne__(self, o):
        return s_not(self == o)

    def __format__(self, s):
        return '<tok>'

    def __str__(self):
        return '<tok>'

    def __getitem__(self, k):
        return Tok('item', self, k)

    def __getattr__(self, k):
        if k.startswith('_'):
            raise AttributeError(k)
        raise Unsupported('attribute %s of opaque %s' % (k, self.name))

    def _vsubst(self, mp):
        return Tok(self.name, *[V.vsubst(a, mp) if not isinstance(a, t.T) else t.subst(a, mp) for a in self.args])

    def __repr__(self):
        return 'Tok%r' % (self.key(),)


def tok_eq(a, b):
    if isinstance(a, t.T) and isinstance(b, t.T):
        return mkbool(t.eq(a, b))
    r = a == b
    return r


def s_any(it):
    if isinstance(it, SArr):
        return arrays.np_any(it)
    r = False
    for x in native_seq(it):
        if x:
            return True
    return r


def s_all(it):
    for x in native_seq(it):
        if not x:
            return False
    return True


def s_sorted(it, key=None, reverse=False):
    xs = native_seq(it)
    if deep_sym(tuple(xs)):
        raise Unsupported('sort of symbolic values')
    return SList(sorted(xs, key=key, reverse=reverse))


def s_iter(x, *a):
    if hasattr(x, '__symiter__') and not isinstance(x, SList):
        raise Unsupported('iter() of symbolic')
    return iter(x, *a)


def s_map(f, *its):
    if len(its) == 1 and hasattr(its[0], '__symiter__'):
        return loops.comp(its[0], lambda x: f(x))
    return SList([f(*x) for x in zip(*[native_seq(i) for i in its])])


def s_filter(f, it):
    return SList([x for x in native_seq(it) if (f(x) if f is not None else x)])


def s_abs(x):
    return x.__abs__() if isinstance(x, (SymInt,)) else abs(x)


def s_hasattr(x, k):
    return hasattr(x, k)


def s_type(x, *a):
    if a:
        return type(x, *a)
    if isinstance(x, NpInt) or isinstance(x, NpFloat):
        return x.dt.type
    for s, k in ((SymBool, bool), (SymInt, int), (SymFloat, float), (SList, list), (SDict, dict), (SBytes, bytes),
                 (SByteArray, bytearray), (SStr, str), (SArr, np.ndarray)):
        if isinstance(x, s):
            return k
    return type(x)


def s_memoryview(x):
    return x if isinstance(x, (SBytes,)) else (norm_bytes(x.value) if isinstance(x, SByteArray) else memoryview(x))


def s_print(*a, **k):
    return None


def s_divmod(a, b):
    if isinstance(a, SymInt):
        return a.__divmod__(b)
    if isinstance(b, SymInt):
        return b.__rdivmod__(a)
    return divmod(a, b)


def s_next(it, *default):
    return next(it, *default)


_int = TypeProxy(int, s_int)
_int.from_bytes = from_bytes
BUILTINS = dict(
    len=s_len, range=s_range, isinstance=s_isinstance, int=_int, bool=TypeProxy(bool, s_bool),
    float=TypeProxy(float, s_float), str=TypeProxy(str, s_str), bytes=TypeProxy(bytes, s_bytes),
    bytearray=TypeProxy(bytearray, s_bytearray), zip=s_zip, enumerate=s_enumerate, reversed=s_reversed, sum=s_sum,
    min=s_min, max=s_max, dict=TypeProxy(dict, s_dict), list=TypeProxy(list, s_list), tuple=TypeProxy(tuple, s_tuple),
    set=TypeProxy(set, s_set), frozenset=TypeProxy(frozenset, s_frozenset), hex=s_hex, any=s_any, all=s_all,
    sorted=s_sorted, iter=s_iter, map=s_map, filter=s_filter, memoryview=s_memoryview, print=s_print, divmod=s_divmod,
    abs=s_abs,
)


# ================================================================ streams
class Stream(Heap):
    """io.BytesIO over symbolic bytes"""
    __hash__ = None

    def __init__(self, data=b''):
        self._register()
        d = as_sbytes(data)
        if d is None:
            raise TypeError('a bytes-like object is required')
        self.data = d
        self.pos = 0

    def _slots(self):
        return {'pos': self.pos}

    def _setslot(self, k, v):
        self.pos = v

    def read(self, size=-1):
        e = eng()
        n = self.data.tlen()
        p = toT(self.pos)
        rem = t.sub(n, p)
        if size is None:
            size = -1
        s = toT(size)
        if s is None:
            raise TypeError('argument should be integer or None')
        if not e.decide(t.le(t.ZERO, s)):
            if not e.decide(t.le(t.ZERO, rem)):
                return b''
            s = rem
        elif not e.decide(t.le(s, rem)):
            e.short = True
            if not e.decide(t.le(t.ZERO, rem)):
                return b''
            s = rem
        if s is t.ZERO:
            return b''
        out = self.data.slice(p, t.add(p, s))
        self.pos = mkint(t.add(p, s))
        return norm_bytes(out)

    def seek(self, off, whence=0):
        o = toT(off)
        e = eng()
        if whence == 0:
            if not e.decide(t.le(t.ZERO, o)):
                raise ValueError('negative seek value')
            np_ = o
        elif whence == 1:
            np_ = t.add(toT(self.pos), o)
        else:
            np_ = t.add(self.data.tlen(), o)
        if whence and not e.decide(t.le(t.ZERO, np_)):
            np_ = t.ZERO
        self.pos = mkint(np_)
        return self.pos

    def tell(self):
        return self.pos

    def getvalue(self):
        return norm_bytes(self.data)

    def getbuffer(self):
        return norm_bytes(self.data)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def seekable(self):
        return True


# ================================================================ struct
import struct as _struct

CODES = {'b': ('i1', 1), 'B': ('u1', 1), 'h': ('i2', 2), 'H': ('u2', 2), 'i': ('i4', 4), 'I': ('u4', 4), 'l': ('i4', 4),
         'L': ('u4', 4), 'q': ('i8', 8), 'Q': ('u8', 8), 'f': ('f4', 4), 'd': ('f8', 8), 'e': ('f2', 2), '?': ('b1', 1)}


class struct_shim:
    error = _struct.error

    @staticmethod
    def layout(fmt):
        """[(code, count, offset)], size"""
        if isinstance(fmt, bytes):
            fmt = fmt.decode()
        f = fmt.replace(' ', '')
        order = '@'
        if f and f[0] in '@=<>!':
            order, f = f[0], f[1:]
        if order in '>!':
            raise Unsupported('big endian format')
        out = []
        off = 0
        num = ''
        for c in f:
            if c.isdigit():
                num += c
                continue
            if c in '\x01':
                raise Unsupported('symbolic struct format')
            k = int(num) if num else 1
            if c == 's':
                out.append(('s', k, off))
                off += k
            elif c == 'x':
                off += k
            else:
                if c not in CODES:
                    raise Unsupported('struct code %r' % c)
                sz = CODES[c][1]
                if order == '@' and c in 'lL':
                    sz = 8
                if order == '@' and off % sz:
                    off += sz - off % sz
                for i in range(k):
                    kd = CODES[c][0]
                    if sz == 8 and c in 'lL':
                        kd = kd[0] + '8'
                    out.append((kd, sz, off))
                    off += sz
            num = ''
        return out, off

    @staticmethod
    def calcsize(fmt):
        if '<' in fmt[1:]:
            raise Unsupported('symbolic struct format')
        return _struct.calcsize(fmt)

    @staticmethod
    def _vals(data, out, base):
        r = []
        for kd, sz, off in out:
            p = t.addc(base, off)
            if kd == 's':
                r.append(norm_bytes(data.slice(p, t.addc(p, sz))))
                continue
            v = data.load(kd, sz, p)
            if kd == 'b1':
                r.append(mkbool(t.bnot(t.eq0(v))))
            elif kd[0] == 'f':
                r.append(float_value(v))
            else:
                r.append(mkint(v))
        return tuple(r)

    @staticmethod
    def unpack(fmt, data):
        out, size = struct_shim.layout(fmt)
        d = as_sbytes(data)
        if d is None:
            raise TypeError('a bytes-like object is required')
        if not eng().decide(t.eq(d.tlen(), t.const(size))):
            raise _struct.error('unpack requires a buffer of %d bytes' % size)
        return struct_shim._vals(d, out, t.ZERO)

    @staticmethod
    def unpack_from(fmt, data, offset=0):
        out, size = struct_shim.layout(fmt)
        d = as_sbytes(data)
        if d is None:
            raise TypeError('a bytes-like object is required')
        o = toT(offset)
        if not eng().decide(t.le(t.ZERO, o)):
            o = t.add(o, d.tlen())
            if not eng().decide(t.le(t.ZERO, o)):
                raise _struct.error('offset out of range')
        if not eng().decide(t.le(t.addc(o, size), d.tlen())):
            raise _struct.error('unpack_from requires a buffer of at least %d bytes' % size)
        return struct_shim._vals(d, out, o)

    @staticmethod
    def iter_unpack(fmt, data):
        raise Unsupported('iter_unpack')

    @staticmethod
    def pack(fmt, *a):
        if any(is_sym(x) for x in a):
            raise Unsupported('struct.pack of symbolic values')
        return _struct.pack(fmt, *a)

    class Struct:
        def __init__(self, fmt):
            self.format = fmt

        @property
        def size(self):
            return struct_shim.calcsize(self.format)

        def unpack(self, data):
            return struct_shim.unpack(self.format, data)

        def unpack_from(self, data, offset=0):
            return struct_shim.unpack_from(self.format, data, offset)


def float_value(f):
    if f.k == 'const' and f.args[0] != 'nan':
        return float.fromhex(f.args[0])
    return SymFloat(f)


# ================================================================ numpy
class NpType:
    """np.float32 & co: usable as dtype and as constructor"""


def np_scalar_type(ty):
    class Meta(type):
        pass

    class P:
        pass
    return ty


def unproxy(x):
    if isinstance(x, TypeProxy):
        return x._native
    if isinstance(x, NpScalar):
        return x.ty
    if isinstance(x, tuple):
        return tuple(unproxy(q) for q in x)
    if isinstance(x, list):
        return [unproxy(q) for q in x]
    if isinstance(x, SList) and x.is_native():
        return [unproxy(q) for q in x.native()]
    return x


class NpScalar(TypeProxy):
    def __init__(self, ty):
        self.ty = ty
        self._native = ty
        self.dt = np.dtype(ty)
        self.__name__ = ty.__name__

    def __call__(self, x=0):
        if isinstance(x, SArr):
            return x.astype(self.dt)
        if isinstance(x, (SymInt, SymFloat, SymBool)):
            if isinstance(x, (NpInt, NpFloat)):
                el = x.t if isinstance(x, NpInt) else x.f
                return arrays.scalar(arrays.cast_el(el, x.dt, self.dt), self.dt)
            if isinstance(x, SymInt) and self.dt.kind in 'iu':
                info = np.iinfo(self.dt)
                e = eng()
                if not (e.decide(t.le(t.const(int(info.min)), x.t)) and e.decide(t.le(x.t, t.const(int(info.max))))):
                    raise OverflowError('Python integer out of bounds')
            return arrays.scalar(arrays.pyscalar_el(x, self.dt), self.dt)
        if is_sym(x):
            raise Unsupported('numpy scalar of symbolic')
        return self.ty(x)


def dtype_of(x):
    if x is None:
        return None
    x = unproxy(x)
    if isinstance(x, (list, SList)) or isinstance(x, SDtype):
        return arrays.mkdtype(x)
    if isinstance(x, str) and ',' in x:
        return arrays.mkdtype(np.dtype(x))
    return np.dtype(x)


class RecShim:
    recarray = np.recarray

    @staticmethod
    def fromarrays(arrs, names=None, dtype=None, **kw):
        a = arrs
        if isinstance(a, (tuple, list, SList)):
            a = [q if isinstance(q, (SArr,)) else arrays.asarray(q) for q in native_seq(a)]
        elif isinstance(a, SArr):
            a = native_seq(a)
        nm = names
        if isinstance(nm, SList):
            nm = nm.native()
        return arrays.fromarrays(a, names=nm, dtype=None if dtype is None else dtype_of(dtype), **kw)


class NumpyShim(types.ModuleType):
    _is_shim = True
    ndarray = np.ndarray
    recarray = np.recarray
    rec = RecShim
    nan = np.nan
    inf = np.inf
    pi = np.pi
    newaxis = None
    generic = np.generic
    integer = np.integer
    floating = np.floating

    @staticmethod
    def dtype(x, *a, **k):
        if a or k:
            return np.dtype(unproxy(x), *a, **k)
        return dtype_of(x)

    @staticmethod
    def frombuffer(data, dtype=float, count=-1, offset=0):
        return arrays.frombuffer(data, dtype_of(dtype), count, offset)

    @staticmethod
    def array(x, dtype=None, copy=True, **kw):
        if kw:
            raise Unsupported('np.array options')
        return arrays.asarray(x, None if dtype is None else dtype_of(dtype))

    @staticmethod
    def asarray(x, dtype=None):
        if isinstance(x, SArr) and (dtype is None or dtype_of(dtype) == x.dt):
            return x
        return arrays.asarray(x, None if dtype is None else dtype_of(dtype))

    @staticmethod
    def zeros(shape, dtype=float, order='C'):
        return arrays.full(shape, 0, dtype_of(dtype))

    @staticmethod
    def ones(shape, dtype=float, order='C'):
        return arrays.full(shape, 1, dtype_of(dtype))

    @staticmethod
    def empty(shape, dtype=float, order='C'):
        return arrays.uninit(shape, dtype_of(dtype))

    @staticmethod
    def full(shape, v, dtype=None, order='C'):
        if isinstance(v, SArr):
            if v.ndim:
                raise Unsupported('np.full with array')
            v = v.item0()
        if dtype is None:
            if isinstance(v, (NpInt, NpFloat, np.generic)):
                dtype = v.dtype
            else:
                dtype = arrays.common_dtype([v])
        return arrays.full(shape, v, dtype_of(dtype))

    @staticmethod
    def zeros_like(a, dtype=None):
        return arrays.full(a.shape, 0, a.dt if dtype is None else dtype_of(dtype))

    @staticmethod
    def ones_like(a, dtype=None):
        return arrays.full(a.shape, 1, a.dt if dtype is None else dtype_of(dtype))

    @staticmethod
    def empty_like(a, dtype=None):
        return arrays.uninit(a.shape, a.dt if dtype is None else dtype_of(dtype))

    @staticmethod
    def full_like(a, v, dtype=None):
        return arrays.full(a.shape, v, a.dt if dtype is None else dtype_of(dtype))

    @staticmethod
    def squeeze(a, axis=None):
        return arrays.squeeze(a, axis)

    @staticmethod
    def clip(a, lo, hi, **k):
        return arrays.npclip(a, lo, hi)

    @staticmethod
    def any(a, **k):
        if isinstance(a, SArr) and not k:
            return arrays.np_any(a)
        if isinstance(a, (SymInt, SymBool)):
            return s_bool(a)
        if deep_sym(a) or k:
            raise Unsupported('np.any')
        return np.any(unproxy(a))

    @staticmethod
    def count_nonzero(a, **k):
        if isinstance(a, SArr) and not k:
            b = toB(arrays.np_any(a))
            n = t.ONE
            for s in a.shape_:
                n = t.mul(n, s)
            c = t.var('cnz!%d' % b.id, 1, None)
            if b is not t.FALSE:
                eng()._assume(t.implies(b, t.le(c, n)))
            return mkint(t.ite(b, c, t.ZERO))
        if deep_sym(a) or k:
            raise Unsupported('np.count_nonzero')
        return np.count_nonzero(unproxy(a))

    @staticmethod
    def all(a, **k):
        if isinstance(a, SArr) and not k:
            return arrays.s_all(a)
        raise Unsupported('np.all')

    @staticmethod
    def power(a, b):
        return arrays.binop('pow', a, b)

    @staticmethod
    def multiply(a, b):
        return arrays.binop('mul', a, b)

    @staticmethod
    def divide(a, b):
        return arrays.binop('div', a, b)

    true_divide = divide

    @staticmethod
    def add(a, b):
        return arrays.binop('add', a, b)

    @staticmethod
    def subtract(a, b):
        return arrays.binop('sub', a, b)

    @staticmethod
    def repeat(v, n, axis=None):
        return arrays.repeat(v, n, axis)

    @staticmethod
    def reshape(a, shape):
        return a.reshape(shape)

    @staticmethod
    def logical_not(a):
        if isinstance(a, SArr) and a.dt.kind == 'b':
            return ~a
        raise Unsupported('np.logical_not')

    @staticmethod
    def where(c, *a):
        if len(a) == 2 and isinstance(c, SArr):
            x, y = a
            d = np.result_type(*[np.zeros(1, arrays.opdtype(q)) if isinstance(arrays.opdtype(q), np.dtype)
                                 else arrays.opdtype(q) for q in a])
            els = []
            for q in (x, y):
                if isinstance(q, SArr):
                    if q.shape_ != c.shape_:
                        raise Unsupported('np.where broadcast')
                    els.append(arrays.cast_el(q.content(), q.dt, d))
                else:
                    els.append(arrays.pyscalar_el(q, d))
            cc = c.content() if c.dt.kind == 'b' else arrays.nonzero(c.content(), c.dt)
            return SArr(d, c.shape_, arrays.eite(cc, *els))
        raise Unsupported('np.where')

    @staticmethod
    def arange(*a, dtype=None):
        r = s_range(*a)
        d = np.dtype('i8') if dtype is None else dtype_of(dtype)
        if isinstance(r, range):
            st, k, n = t.const(r.start), r.step, t.const(len(r))
        else:
            st, k, n = r.start, r.step, r.count()
            if not eng().decide(t.le(t.ZERO, n)):
                n = t.ZERO
        return SArr(d, (n,), arrays.cast_el(t.add(st, t.scale(arrays.IX[0], k)), np.dtype('i8'), d))

    @staticmethod
    def errstate(**k):
        return np.errstate(**k)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        v = getattr(np, k)
        if isinstance(v, type) and issubclass(v, np.generic):
            return NpScalar(v)
        if isinstance(v, type) or not callable(v):
            return v

        def f(*a, **kw):
            if deep_sym(a) or deep_sym(kw):
                raise Unsupported('numpy.%s on symbolic values' % k)
            return v(*unproxy(a), **{q: unproxy(w) for q, w in kw.items()})
        f.__name__ = k
        return f


# ================================================================ other modules
def mkmodule(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    return m


class CounterShim(SDict):
    pass


def defaultdict_shim(factory=None, *a):
    d = SDict(*a)
    d.default_factory = factory
    return d


import struct as _struct
FROZEN = (int, float, complex, str, bytes, bool, type(None), np.dtype, np.generic, _struct.Struct, frozenset, type)


def frozen_value(v):
    if isinstance(v, tuple):
        return all(frozen_value(x) for x in v)
    if isinstance(v, FROZEN) or isinstance(v, (types.FunctionType, SDtype)):
        return True
    return is_sym(v) and not isinstance(v, (SArr, SRec, Heap))


def identity_cache(*a, **k):
    """lru_cache and cache: the function itself, while what it returns cannot be changed by whoever gets it (a shared
    mutable result is beyond the contracts, which are about one call)"""
    import functools

    def deco(f):
        @functools.wraps(f)
        def g(*aa, **kk):
            r = f(*aa, **kk)
            if not frozen_value(r):
                raise Unsupported('cached mutable result of %s' % getattr(f, '__name__', f))
            return r
        g.cache_clear = lambda: None
        return g
    if len(a) == 1 and callable(a[0]) and not k:
        return deco(a[0])
    return deco


def copy_shim(x):
    if isinstance(x, (SList, SDict, SArr)):
        return x.copy()
    if is_sym(x) or isinstance(x, (int, float, str, bytes, type(None), tuple, Tok)):
        return x
    import copy
    return copy.copy(x)


class _Null:
    def __getattr__(self, k):
        return lambda *a, **kw: None


class Loader:
    """executes rewritten eventio sources in a private module universe"""
    codes = {}

    def __init__(self, overrides=None):
        modstate.LOADERS.add(self)
        self.mods = {}
        self.overrides = overrides or {}
        self.loaded = []
        self.on_load = {}
        import collections
        import functools
        import io
        import logging
        import warnings
        self.np = NumpyShim('numpy')
        coll = mkmodule('collections', **{k: getattr(collections, k) for k in dir(collections) if not k.startswith('__')})
        coll.defaultdict = defaultdict_shim
        coll.OrderedDict = s_dict
        ft = mkmodule('functools', **{k: getattr(functools, k) for k in dir(functools) if not k.startswith('__')})
        ft.lru_cache = identity_cache
        ft.cache = identity_cache
        iom = mkmodule('io', **{k: getattr(io, k) for k in dir(io) if not k.startswith('__')})
        iom.BytesIO = Stream
        wm = mkmodule('warnings', **{k: getattr(warnings, k) for k in dir(warnings) if not k.startswith('__')})
        wm.warn = lambda *a, **k: eng().notes.add('warn') if core.ENG is not None else None
        lg = mkmodule('logging', getLogger=lambda *a, **k: _Null(), DEBUG=10, INFO=20, WARNING=30)
        cp = mkmodule('copy', copy=copy_shim, deepcopy=copy_shim)
        self.lib = {'numpy': self.np, 'struct': struct_shim, 'io': iom, 'collections': coll, 'functools': ft,
                    'warnings': wm, 'logging': lg, 'copy': cp,
                    'corsikaio': corsikaio_shim(), 'corsikaio.subblocks': corsikaio_shim()}
        self.builtins = dict(vars(B_))
        self.builtins.update(BUILTINS)
        self.builtins['__import__'] = self.imp
        self.builtins['__build_class__'] = self.build_class

    def build_class(self, func, name, *bases, **kw):
        cls = B_.__build_class__(func, name, *bases, **kw)
        if cls.__mro__[1:] == (object,) and '__new__' not in cls.__dict__:
            def __new__(c, *a, **k):
                o = object.__new__(c)
                if core.ENG is not None:
                    core.ENG.instances.append(o)
                return o
            cls.__new__ = staticmethod(__new__)
        return cls

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            for _ in range(level - 1):
                pkg = pkg.rsplit('.', 1)[0]
            full = pkg + ('.' + name if name else '')
        else:
            full = name
        if full == 'eventio' or full.startswith('eventio.'):
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and f != '*':
                        try:
                            self.load(full + '.' + f)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.load(full.split('.')[0])
        if full in self.lib:
            m = self.lib[full]
            if not fromlist and '.' in full:
                return self.lib[full.split('.')[0]]
            return m
        return B_.__import__(name, globals, locals, fromlist, level)

    def load(self, full):
        m = self.mods.get(full)
        if m is not None:
            return m
        ov = self.overrides.get(full)
        if ov is not None:
            m = ov(self) if callable(ov) and not isinstance(ov, types.ModuleType) else ov
            self.mods[full] = m
            self.attach(full, m)
            return m
        base = os.path.join(SRC, *full.split('.'))
        pkg = os.path.isdir(base)
        path = os.path.join(base, '__init__.py') if pkg else base + '.py'
        if not os.path.exists(path):
            raise ModuleNotFoundError(full)
        if '.' in full:
            parent = full.rsplit('.', 1)[0]
            if parent in self.light:
                pm = self.mods.get(parent)
                if pm is None:
                    pm = types.ModuleType(parent)
                    pm.__package__ = parent
                    pm.__path__ = [os.path.join(SRC, *parent.split('.'))]
                    self.mods[parent] = pm
            else:
                self.load(parent)
                if full in self.mods:
                    return self.mods[full]
        m = types.ModuleType(full)
        m.__file__ = path
        m.__package__ = full if pkg else full.rpartition('.')[0]
        if pkg:
            m.__path__ = [base]
        m.__dict__['__builtins__'] = self.builtins
        m.__dict__['_L__'] = Op
        self.mods[full] = m
        self.attach(full, m)
        code = Loader.codes.get(path)
        if code is None:
            try:
                with open(path) as f:
                    src = f.read()
                code = instrument.transform(src, path)
            except NotImplementedError as ex:
                raise Unsupported('source construct: %s' % ex)
            Loader.codes[path] = code
        exec(code, m.__dict__)
        self.loaded.append(path)
        f = self.on_load.get(full)
        if f is not None:
            f(m)
        return m

    # packages whose __init__ is not executed (their sub-modules are loaded on demand)
    light = ()

    def attach(self, full, m):
        if '.' in full:
            p, c = full.rsplit('.', 1)
            pm = self.mods.get(p)
            if pm is not None:
                setattr(pm, c, m)

    def exec_source(self, path, name, **glob):
        """rewrite and run an auxiliary (specification) file"""
        m = types.ModuleType(name)
        m.__dict__['__builtins__'] = self.builtins
        m.__dict__['_L__'] = Op
        m.__dict__.update(glob)
        code = Loader.codes.get(path)
        if code is None:
            code = instrument.transform(open(path).read(), path)
            Loader.codes[path] = code
        exec(code, m.__dict__)
        return m


def corsikaio_shim():
    def parse_run_header(data):
        return SList([Tok('parse_run_header', data)])

    def parse_event_header(data):
        return SList([Tok('parse_event_header', data)])

    def opaque(name):
        def f(data, *a, **k):
            return Tok(name, data, *(list(a) + [k[q] for q in sorted(k)]))
        return f
    names = ['parse_run_end', 'parse_longitudinal', 'parse_event_end', 'parse_particle_data', 'parse_cherenkov_photons']
    return mkmodule('corsikaio.subblocks', parse_run_header=parse_run_header, parse_event_header=parse_event_header,
                    **{n: opaque(n) for n in names})
