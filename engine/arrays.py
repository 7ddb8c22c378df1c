"""Symbolic numpy arrays: a shape and an element expression over canonical index variables."""
import numpy as np
from . import terms as t
from .terms import T, B, F
from . import core
from .core import Unsupported, eng
from . import values as V
from .values import (SymInt, SymBool, SymFloat, toT, mkint, mkbool, toB, toF, wrap, Heap, SBytes, SList,
                     as_sbytes, LoopNode)

IX = [t.var('i%d' % k, 0, None) for k in range(12)]
IXA = [x.m[0][0] for x in IX]


# ================================================================ dtypes
class SDtype:
    """structured dtype whose sub-array shapes may be symbolic"""
    def __init__(self, fields):
        self.fields_ = fields          # [(name, np.dtype scalar | SDtype, shape tuple of T)]
        self.names = tuple(f[0] for f in fields)
        if len(set(self.names)) != len(self.names):
            raise ValueError('field occurs more than once')
        off = t.ZERO
        self.off = {}
        for n, d, sh in fields:
            self.off[n] = off
            k = t.const(d.itemsize)
            for s in sh:
                k = t.mul(k, s)
            off = t.add(off, k)
        self.size = off

    @property
    def itemsize(self):
        return mkint(self.size)

    def __len__(self):
        return len(self.names)

    def field(self, n):
        for f in self.fields_:
            if f[0] == n:
                return f
        raise ValueError('no field of name %s' % n)

    kind = 'V'

    def sig(self):
        return tuple((n, d.str, sh) for n, d, sh in self.fields_)

    def __eq__(self, o):
        return isinstance(o, SDtype) and self.sig() == o.sig()

    def __hash__(self):
        return hash(self.names)

    def __repr__(self):
        return 'SDtype(%r)' % (self.names,)


def mkdtype(x):
    """numpy dtype object, or SDtype when structured"""
    if isinstance(x, SDtype):
        return x
    if isinstance(x, np.dtype):
        if x.names is None:
            return x
        if any(x.fields[n][1] for n in x.names) and x.isalignedstruct:
            raise Unsupported('aligned dtype')
        fl = []
        off = 0
        for n in x.names:
            d, o = x.fields[n][:2]
            if o != off:
                raise Unsupported('dtype with padding')
            sh = ()
            if d.subdtype is not None:
                d, shp = d.subdtype
                sh = tuple(t.const(s) for s in shp)
            fl.append((n, d, sh))
            off += x.fields[n][0].itemsize
        return SDtype(fl)
    if isinstance(x, SList):
        x = x.native()
    if isinstance(x, (list, tuple)) and x and all(isinstance(f, (tuple, SList)) for f in x):
        fl = []
        for f in x:
            f = tuple(f)
            d = np.dtype(f[1])
            sh = ()
            if len(f) > 2:
                s = f[2]
                if not isinstance(s, (tuple, list, SList)):
                    s = (s,)
                sh = tuple(toT(q) for q in s)
                for q in sh:
                    if not eng().decide(t.le(t.ZERO, q)):
                        raise ValueError('invalid shape in fixed-type tuple: dimension smaller than zero.')
            fl.append((f[0], d, sh))
        return SDtype(fl)
    if isinstance(x, (list, tuple)) and not x:
        raise Unsupported('empty structured dtype')
    d = np.dtype(getattr(x, '_native', x))
    return mkdtype(d) if d.names else d


def dkind(d):
    """load kind of a scalar dtype"""
    if d.kind == 'b':
        return 'b1'
    return d.kind + str(d.itemsize)


# ================================================================ element expressions
def esubst(el, mp):
    if isinstance(el, dict):
        return {k: esubst(v, mp) for k, v in el.items()}
    return t.subst(el, mp)


def eite(c, a, b):
    if c is t.TRUE:
        return a
    if c is t.FALSE:
        return b
    q = eng().quick(c)
    if q is True:
        return a
    if q is False:
        return b
    if isinstance(a, dict):
        return {k: eite(c, a[k], b[k]) for k in a}
    if a is b:
        return a
    if isinstance(a, T):
        return t.ite(c, a, b)
    if isinstance(a, B):
        return t.bor(t.band(c, a), t.band(t.bnot(c), b))
    return t.fite(c, a, b)


def cast_el(el, src, dst):
    """convert one element between scalar dtypes"""
    if src == dst or (src.kind == dst.kind and src.itemsize == dst.itemsize):
        return el
    if dst.kind in 'iu':
        if src.kind == 'f':
            raise Unsupported('float to integer cast')
        x = toT(mkbool(el)) if isinstance(el, B) else el
        return toT(wrap(x, dst.itemsize * 8, dst.kind == 'i'))
    if dst.kind == 'f':
        if src.kind == 'f':
            if dst.itemsize >= src.itemsize:
                return el
            return t.fterm('f%d' % (dst.itemsize * 8), el)
        x = toT(mkbool(el)) if isinstance(el, B) else el
        return i2f(x, dst.itemsize * 8)
    if dst.kind == 'b':
        if isinstance(el, T):
            return t.bnot(t.eq0(el))
    raise Unsupported('cast %s -> %s' % (src, dst))


def i2f(x, bits):
    if not x.m:
        v = {32: np.float32, 64: np.float64, 16: np.float16}[bits](x.c)
        return toF(float(v))
    if bits == 64:
        return t.fterm('i2f', x)
    return t.fterm('i2f%d' % bits, x)


def pyscalar_el(v, dt):
    """element of dtype dt from a python or symbolic scalar"""
    if isinstance(v, SArr) and v.ndim == 0:
        v = v.item0()
    if dt.kind in 'iu':
        x = toT(v)
        if x is None:
            if isinstance(v, (float, np.floating)) and float(v).is_integer():
                x = t.const(int(v))
            else:
                raise Unsupported('scalar to %s' % dt)
        return toT(wrap(x, dt.itemsize * 8, dt.kind == 'i'))
    if dt.kind == 'f':
        if isinstance(v, (bool, int, SymInt, SymBool, np.integer)):
            return i2f(toT(v), dt.itemsize * 8)
        f = toF(v)
        if f is None:
            raise Unsupported('scalar to %s' % dt)
        return round_const(f, dt.itemsize * 8)
    if dt.kind == 'b':
        return toB(v)
    raise Unsupported('scalar to %s' % dt)


def round_const(f, bits):
    if f.k == 'const':
        if f.args[0] == 'nan':
            return f
        v = float.fromhex(f.args[0])
        with np.errstate(all='ignore'):
            return toF(float({16: np.float16, 32: np.float32, 64: np.float64}[bits](v)))
    if bits == 64 or f.k in ('F%d@' % bits,) or f.k.startswith(('F32@', 'mul32', 'div32', 'i2f32', 'pow32', 'clip32', 'f32',
                                                               'add32', 'sub32', 'uninit')):
        if bits >= 32:
            return f
    return t.fterm('f%d' % bits, f)


def el_to_value(el, dt, shape=(), base=0):
    if isinstance(el, dict):
        return SRec(dt, el, base)
    if shape:
        mp = {IXA[base + k]: IX[k] for k in range(len(shape))}
        return SArr(dt, shape, esubst(el, mp))
    return scalar(el, dt)


def scalar(el, dt):
    if isinstance(el, T):
        el = simp(el)
        if not el.m:
            return dt.type(el.c)
        return NpInt(el, dt)
    if isinstance(el, B):
        return mkbool(el)
    return NpFloat(el, dt)


def simp(x):
    return x


class NpFloat(SymFloat):
    __slots__ = ('dt',)

    def __init__(self, f, dt):
        self.f = f
        self.dt = dt

    @property
    def dtype(self):
        return self.dt

    def _op(self, op, o, rev=False):
        r = binop(op, o if rev else self, self if rev else o)
        return r

    def __add__(self, o): return self._op('add', o)
    def __radd__(self, o): return self._op('add', o, True)
    def __sub__(self, o): return self._op('sub', o)
    def __rsub__(self, o): return self._op('sub', o, True)
    def __mul__(self, o): return self._op('mul', o)
    def __rmul__(self, o): return self._op('mul', o, True)
    def __truediv__(self, o): return self._op('div', o)
    def __rtruediv__(self, o): return self._op('div', o, True)


class NpInt(SymInt):
    """numpy integer scalar: arithmetic wraps in its type"""
    __slots__ = ('dt',)

    def __init__(self, x, dt):
        self.t = x
        self.dt = dt

    @property
    def dtype(self):
        return self.dt

    def item(self):
        return mkint(self.t)

    def _r(self, o):
        """result dtype"""
        if isinstance(o, NpInt):
            return np.result_type(self.dt, o.dt)
        if isinstance(o, np.generic):
            return np.result_type(self.dt, o.dtype)
        if isinstance(o, bool):
            return self.dt
        if isinstance(o, int):
            info = np.iinfo(self.dt)
            if not info.min <= o <= info.max:
                raise OverflowError('Python integer %d out of bounds for %s' % (o, self.dt))
            return self.dt
        return self.dt

    def _w(self, v, o):
        if v is NotImplemented:
            return v
        d = self._r(o)
        if d.kind == 'f':
            raise Unsupported('mixed numpy scalar arithmetic')
        x = toT(wrap(v, d.itemsize * 8, d.kind == 'i'))
        return d.type(x.c) if not x.m else NpInt(x, d)

    def _isnum(self, o):
        return toT(o) is not None and not isinstance(o, SArr)

    def __add__(self, o): return self._w(SymInt.__add__(self, o), o) if self._isnum(o) else self._other('add', o)
    def __radd__(self, o): return self._w(SymInt.__radd__(self, o), o) if self._isnum(o) else self._other('add', o, True)
    def __sub__(self, o): return self._w(SymInt.__sub__(self, o), o) if self._isnum(o) else self._other('sub', o)
    def __rsub__(self, o): return self._w(SymInt.__rsub__(self, o), o) if self._isnum(o) else self._other('sub', o, True)

    def __mul__(self, o):
        if isinstance(o, (tuple, str, bytes, SList)):
            return NotImplemented
        return self._w(SymInt.__mul__(self, o), o) if self._isnum(o) else self._other('mul', o)

    def __rmul__(self, o):
        return self._w(SymInt.__rmul__(self, o), o) if self._isnum(o) else self._other('mul', o, True)

    def _other(self, op, o, rev=False):
        if isinstance(o, SArr):
            return NotImplemented
        if isinstance(o, (float, SymFloat)):
            return binop(op, o if rev else self, self if rev else o)
        return NotImplemented

    def __floordiv__(self, o): return self._w(SymInt.__floordiv__(self, o), o)
    def __rfloordiv__(self, o): return self._w(SymInt.__rfloordiv__(self, o), o)
    def __mod__(self, o): return self._w(SymInt.__mod__(self, o), o)
    def __rmod__(self, o): return self._w(SymInt.__rmod__(self, o), o)
    def __divmod__(self, o): return (self // o, self % o)
    def __and__(self, o): return self._w(SymInt.__and__(self, o), o) if self._isnum(o) else NotImplemented
    __rand__ = __and__
    def __or__(self, o): return self._w(SymInt.__or__(self, o), o) if self._isnum(o) else NotImplemented
    __ror__ = __or__
    def __xor__(self, o): return self._w(SymInt.__xor__(self, o), o) if self._isnum(o) else NotImplemented
    __rxor__ = __xor__
    def __lshift__(self, o): return self._w(SymInt.__lshift__(self, o), o)
    def __rlshift__(self, o): return self._w(SymInt.__rlshift__(self, o), o)
    def __rshift__(self, o): return self._w(SymInt.__rshift__(self, o), o)
    def __neg__(self): return self._w(SymInt.__neg__(self), 0)
    def __invert__(self):
        if self.dt.kind == 'u':
            return self._w(mkint(t.sub(t.const((1 << self.dt.itemsize * 8) - 1), self.t)), 0)
        return self._w(SymInt.__invert__(self), 0)

    def astype(self, d):
        d = np.dtype(getattr(d, '_native', d))
        return scalar(cast_el(self.t, self.dt, d), d)


class SRec:
    """one element of a structured array"""
    __hash__ = None

    def __init__(self, dt, el, base):
        self.dt = dt
        self.el = el
        self.base = base

    @property
    def dtype(self):
        return self.dt

    def __getitem__(self, k):
        if isinstance(k, int):
            k = self.dt.names[k]
        n, d, sh = self.dt.field(k)
        return el_to_value(self.el[k], d, sh, self.base)

    def __iter__(self):
        return iter([self[n] for n in self.dt.names])

    def __len__(self):
        return len(self.dt.names)

    def item(self):
        return tuple(self)

    def tolist(self):
        return tuple(self)

    def _vsubst(self, mp):
        return SRec(dsubst(self.dt, mp), esubst(self.el, mp), self.base)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('record attribute %s' % k)


def dsubst(dt, mp):
    if isinstance(dt, SDtype):
        return SDtype([(n, d, tuple(t.subst(s, mp) for s in sh)) for n, d, sh in dt.fields_])
    return dt


# ================================================================ arrays
class SArr(Heap):
    __hash__ = None
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, dt, shape, el, ro=False, parent=None):
        self._register()
        self.dt = dt
        self.shape_ = tuple(shape)
        self.el = el
        self.ro = ro
        self.parent = parent
        self._cache = None
        self._pver = parent[0].version() if parent else 0
        self._ovr = None

    # ------------------------------------------------ content
    def version(self):
        p = self.parent[0].version() if self.parent else 0
        return (len(self._log), p)

    def content(self):
        """element expression after all writes"""
        if eng().loop_stack:
            eng().note_read(self)
            if self.parent is not None:
                self.parent[0].content()
        if self.parent is not None and self.parent[0].version() != self._pver:
            p, view = self.parent
            self.el = view(p).el
            self._pver = p.version()
            self._cache = None
        if not self._log:
            return self.el
        if self._cache is not None and self._cache[0] == len(self._log):
            return self._cache[1]
        el = self.el
        for ev in self._log:
            el = apply_event(ev, el, self)
        self._cache = (len(self._log), el)
        return el

    def write(self, idx, value):
        """idx: list of T or None (all elements of that dimension)"""
        if self.ro:
            raise ValueError('assignment destination is read-only')
        if self.parent is not None:
            raise Unsupported('write through a view')
        self._log.append(('store', tuple(idx), value))

    @property
    def dtype(self):
        return self.dt

    @property
    def shape(self):
        return tuple(mkint(s) for s in self.shape_)

    @property
    def ndim(self):
        return len(self.shape_)

    @property
    def size(self):
        n = t.ONE
        for s in self.shape_:
            n = t.mul(n, s)
        return mkint(n)

    @property
    def nbytes(self):
        return self.size * self.itemsize

    @property
    def itemsize(self):
        return self.dt.itemsize

    @property
    def T(self):
        if self.ndim < 2:
            return self
        if self.ndim == 2:
            return SArr(self.dt, self.shape_[::-1], esubst(self.content(), {IXA[0]: IX[1], IXA[1]: IX[0]}))
        raise Unsupported('transpose')

    def __symlen__(self):
        if not self.shape_:
            raise TypeError('len() of unsized object')
        return mkint(self.shape_[0])

    def __len__(self):
        n = self.__symlen__()
        if isinstance(n, int):
            return n
        raise Unsupported('native len of symbolic array')

    def item0(self):
        return scalar(self.content(), self.dt)

    def __symiter__(self):
        if not self.shape_:
            raise TypeError('iteration over a 0-d array')
        return self.shape_[0], self.at

    def at(self, i):
        """element / sub-array along the first axis, index in range"""
        el = self.content()
        if self.ndim == 1:
            return el_to_value(esubst(el, {IXA[0]: i}), self.dt, (), 1)
        n = self.ndim
        mp = {IXA[0]: i}
        for k in range(1, n + 4):
            mp[IXA[k]] = IX[k - 1]
        return SArr(self.dt, self.shape_[1:], esubst(el, mp), ro=self.ro,
                    parent=(self, lambda p: SArr(p.dt, p.shape_[1:], esubst(p.content(), mp))))

    def __iter__(self):
        n = self.__symlen__()
        if not isinstance(n, int):
            raise Unsupported('native iteration over a symbolic array')
        return iter([self.at(t.const(i)) for i in range(n)])

    def __bool__(self):
        e = eng()
        if self.ndim == 0:
            return bool(self.item0())
        n = toT(self.size)
        if e.decide(t.eq(n, t.ONE)):
            return bool(self[tuple([0] * self.ndim)])
        raise ValueError('The truth value of an array is ambiguous')

    # ------------------------------------------------ indexing
    def _norm(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if any(k is Ellipsis for k in key):
            i = [k is Ellipsis for k in key].index(True)
            key = key[:i] + (slice(None),) * (self.ndim - (len(key) - 1)) + key[i + 1:]
        if any(k is None for k in key):
            raise Unsupported('newaxis')
        if len(key) > self.ndim:
            raise IndexError('too many indices for array')
        return key + (slice(None),) * (self.ndim - len(key))

    def _index1(self, k, n):
        """('i', T) or ('s', start, len, step)"""
        e = eng()
        if isinstance(k, slice):
            if k.step is not None and k.step != 1:
                raise Unsupported('stepped slice')
            a = self._clip(k.start, n, t.ZERO)
            b = self._clip(k.stop, n, n)
            if a is t.ZERO and b is n:
                return ('s', a, n)
            if not e.decide(t.le(a, b)):
                return ('s', a, t.ZERO)
            return ('s', a, t.sub(b, a))
        if isinstance(k, (SArr, list, SList, np.ndarray)):
            raise Unsupported('fancy indexing')
        v = toT(k)
        if v is None:
            raise IndexError('only integers, slices (`:`) are valid indices')
        if isinstance(k, (bool, SymBool)):
            raise Unsupported('boolean index')
        if not e.decide(t.le(t.ZERO, v)):
            v = t.add(v, n)
            if not e.decide(t.le(t.ZERO, v)):
                raise IndexError('index out of bounds')
        if not e.decide(t.lt(v, n)):
            raise IndexError('index out of bounds')
        return ('i', v)

    def _clip(self, x, n, default):
        e = eng()
        if x is None:
            return default
        v = toT(x)
        if v is None:
            raise TypeError('slice indices must be integers')
        if not e.decide(t.le(t.ZERO, v)):
            v = t.add(v, n)
            if not e.decide(t.le(t.ZERO, v)):
                return t.ZERO
        if e.decide(t.le(v, n)):
            return v
        return n

    def __getitem__(self, key):
        if isinstance(key, str):
            if not isinstance(self.dt, SDtype):
                raise IndexError('only integers, slices are valid indices')
            n, d, sh = self.dt.field(key)
            return SArr(d, self.shape_ + sh, self.content()[key], ro=self.ro,
                        parent=(self, lambda p: SArr(d, p.shape_ + sh, p.content()[key])))
        if isinstance(key, SArr) and not isinstance(key.dt, SDtype) and key.dt.kind == 'b':
            return MaskSel(self, key)
        key = self._norm(key)
        mp = {}
        shape = []
        for d, k in enumerate(key):
            r = self._index1(k, self.shape_[d])
            if r[0] == 'i':
                mp[IXA[d]] = r[1]
            else:
                mp[IXA[d]] = t.add(r[1], IX[len(shape)])
                shape.append(r[2])
        nd, od = len(shape), self.ndim
        if nd != od:
            for k in range(4):
                mp[IXA[od + k]] = IX[nd + k]
        el = esubst(self.content(), mp)
        if not shape:
            return el_to_value(el, self.dt, (), 0)
        return SArr(self.dt, shape, el, ro=self.ro,
                    parent=(self, lambda p: SArr(p.dt, shape, esubst(p.content(), mp))))

    def __setitem__(self, key, v):
        if isinstance(key, str):
            n, d, sh = self.dt.field(key)
            if isinstance(v, SArr):
                nel = cast_el(broadcast_el(v, self.shape_ + sh), v.dt, d)
            else:
                nel = pyscalar_el(v, d)
            if self.ro:
                raise ValueError('assignment destination is read-only')
            if self.parent is not None or not eng().can_mutate(self):
                raise Unsupported('field write')
            cur = dict(self.content())
            cur[key] = nel
            self._log.append(('replace', cur))
            return
        key = self._norm(key)
        idx = []
        sl = []
        for d, k in enumerate(key):
            r = self._index1(k, self.shape_[d])
            if r[0] == 'i':
                idx.append(('i', r[1]))
            else:
                idx.append(('s', r[1], r[2], len(sl)))
                sl.append(r[2])
        if isinstance(v, np.ndarray):
            v = from_numpy(v)
        if isinstance(v, SList):
            v = asarray(v)
        if isinstance(v, SArr):
            if v.ndim == 0 and not isinstance(v.dt, SDtype):
                el = cast_el(v.content(), v.dt, self.dt)
            else:
                el = cast_el(broadcast_el(v, tuple(sl)), v.dt, self.dt)
        elif isinstance(self.dt, SDtype):
            raise Unsupported('record assignment')
        else:
            el = pyscalar_el(v, self.dt)
            if isinstance(v, int) and self.dt.kind in 'iu' and not isinstance(v, bool):
                info = np.iinfo(self.dt)
                if not info.min <= v <= info.max:
                    raise OverflowError('Python integer out of bounds')
        self.write(idx, el)

    # ------------------------------------------------ methods
    def astype(self, d, copy=True, **kw):
        d = mkdtype(d)
        el = self.content()
        if isinstance(self.dt, SDtype):
            if not isinstance(d, SDtype):
                raise Unsupported('cast of structured array')
            if len(d.names) != len(self.dt.names):
                raise TypeError('Cannot cast')
            out = {}
            for (n1, d1, s1), (n2, d2, s2) in zip(self.dt.fields_, d.fields_):
                if s1 != s2:
                    raise Unsupported('sub-array cast')
                out[n2] = cast_el(el[n1], d1, d2)
            return SArr(d, self.shape_, out)
        return SArr(d, self.shape_, cast_el(el, self.dt, d))

    def view(self, d=None):
        if d is None or d is np.recarray or getattr(d, '_is_recarray', False):
            return self
        d = mkdtype(d)
        if isinstance(d, SDtype) and isinstance(self.dt, SDtype):
            f1 = [(x[1].str, x[2]) for x in self.dt.fields_]
            f2 = [(x[1].str, x[2]) for x in d.fields_]
            if f1 == f2:
                el = self.content()
                return SArr(d, self.shape_, {n2: el[n1] for n1, n2 in zip(self.dt.names, d.names)}, ro=self.ro)
        elif not isinstance(d, SDtype) and not isinstance(self.dt, SDtype) and d == self.dt:
            return SArr(d, self.shape_, self.content(), ro=self.ro)
        raise Unsupported('view')

    def copy(self, order=None):
        return SArr(self.dt, self.shape_, self.content())

    __copy__ = copy

    def reshape(self, *shape, **kw):
        if kw:
            raise Unsupported('reshape options')
        if len(shape) == 1 and isinstance(shape[0], (tuple, list, SList)):
            shape = tuple(shape[0])
        sh = [toT(s) for s in shape]
        e = eng()
        total = toT(self.size)
        neg = [i for i, s in enumerate(sh) if not s.m and s.c == -1]
        if len(neg) == 1:
            other = t.ONE
            for i, s in enumerate(sh):
                if i != neg[0]:
                    other = t.mul(other, s)
            q = V.i_div(total, other) if not (other.m == () and other.c == 1) else mkint(total)
            qT = toT(q)
            if not e.decide(t.eq(t.mul(qT, other), total)):
                raise ValueError('cannot reshape array')
            sh[neg[0]] = qT
        else:
            for s in sh:
                if not e.decide(t.le(t.ZERO, s)):
                    raise ValueError('negative dimensions')
            n = t.ONE
            for s in sh:
                n = t.mul(n, s)
            if not e.decide(t.eq(n, total)):
                raise ValueError('cannot reshape array')
        return SArr(self.dt, sh, reshape_el(self.content(), self.shape_, tuple(sh)), ro=self.ro)

    def ravel(self):
        return self.reshape(-1)

    flatten = ravel

    def squeeze(self, axis=None):
        return squeeze(self, axis)

    def clip(self, min=None, max=None, **kw):
        return npclip(self, min, max)

    def any(self):
        return np_any(self)

    def all(self):
        return s_all(self)

    def sum(self, *a, **k):
        raise Unsupported('sum of array')

    def tolist(self):
        out = SList()
        from . import loops
        loops.for_(self, lambda x: out.append(x.item() if hasattr(x, 'item') else x))
        return out

    def tobytes(self):
        raise Unsupported('tobytes')

    def setflags(self, **kw):
        pass

    def __getattr__(self, k):
        if k.startswith('_'):
            raise AttributeError(k)
        dt = object.__getattribute__(self, 'dt')
        if isinstance(dt, SDtype) and k in dt.names:
            return self[k]
        raise Unsupported('ndarray.%s' % k)

    # ------------------------------------------------ operators
    def _b(self, op, o, rev=False):
        return binop(op, o if rev else self, self if rev else o)

    def __add__(self, o): return self._b('add', o)
    def __radd__(self, o): return self._b('add', o, True)
    def __sub__(self, o): return self._b('sub', o)
    def __rsub__(self, o): return self._b('sub', o, True)
    def __mul__(self, o): return self._b('mul', o)
    def __rmul__(self, o): return self._b('mul', o, True)
    def __truediv__(self, o): return self._b('div', o)
    def __rtruediv__(self, o): return self._b('div', o, True)
    def __floordiv__(self, o): return self._b('floordiv', o)
    def __mod__(self, o): return self._b('mod', o)
    def __and__(self, o): return self._b('and', o)
    def __rand__(self, o): return self._b('and', o, True)
    def __or__(self, o): return self._b('or', o)
    def __ror__(self, o): return self._b('or', o, True)
    def __xor__(self, o): return self._b('xor', o)
    def __lshift__(self, o): return self._b('lshift', o)
    def __rshift__(self, o): return self._b('rshift', o)
    def __pow__(self, o): return self._b('pow', o)
    def __rpow__(self, o): return self._b('pow', o, True)
    def __lt__(self, o): return self._b('lt', o)
    def __le__(self, o): return self._b('le', o)
    def __gt__(self, o): return self._b('lt', o, True)
    def __ge__(self, o): return self._b('le', o, True)
    def __eq__(self, o): return self._b('eq', o)
    def __ne__(self, o): return self._b('ne', o)

    def __neg__(self):
        if self.dt.kind == 'f':
            return self._b('mul', -1.0)
        return binop('sub', SArr(self.dt, self.shape_, t.ZERO), self)

    def __invert__(self):
        el = self.content()
        if self.dt.kind == 'b':
            return SArr(self.dt, self.shape_, t.bnot(el))
        if self.dt.kind == 'u':
            return SArr(self.dt, self.shape_, t.sub(t.const((1 << 8 * self.dt.itemsize) - 1), el))
        return SArr(self.dt, self.shape_, t.addc(t.scale(el, -1), -1))

    def _inplace(self, op, o):
        r = self._b(op, o)
        if not isinstance(r, SArr):
            raise Unsupported('in-place')
        if self.ro:
            raise ValueError('output array is read-only')
        if not np.can_cast(r.dt, self.dt, 'same_kind'):
            raise TypeError('Cannot cast ufunc output')
        el = cast_el(broadcast_el(r, self.shape_), r.dt, self.dt)
        if not eng().can_mutate(self):
            raise Unsupported('in-place array operation inside a loop')
        if self.parent is not None:
            # write through to the base is done by the caller's item assignment; record locally
            raise_if = self.parent[0]
            self._propagate(el)
            return self
        self._log.append(('replace', el))
        return self

    def _propagate(self, el):
        p, view = self.parent
        if isinstance(p.dt, SDtype) and not isinstance(self.dt, SDtype) and p.parent is None and not p.ro:
            for n, d, sh in p.dt.fields_:
                if p.content()[n] is self.content() and d == self.dt and p.shape_ + sh == self.shape_:
                    names = [m for m, dd, s2 in p.dt.fields_ if p.content()[m] is p.content()[n]]
                    if len(names) > 1:
                        continue
                    cur = dict(p.content())
                    cur[n] = el
                    p._log.append(('replace', cur))
                    self.content()
                    return
        raise Unsupported('in-place operation on a view')

    def __iadd__(self, o): return self._inplace('add', o)
    def __isub__(self, o): return self._inplace('sub', o)
    def __imul__(self, o): return self._inplace('mul', o)
    def __itruediv__(self, o): return self._inplace('div', o)
    def __iand__(self, o): return self._inplace('and', o)
    def __ior__(self, o): return self._inplace('or', o)
    def __ixor__(self, o): return self._inplace('xor', o)
    def __ilshift__(self, o): return self._inplace('lshift', o)
    def __irshift__(self, o): return self._inplace('rshift', o)

    # ------------------------------------------------ engine hooks
    def _vsubst(self, mp):
        r = SArr.__new__(SArr)
        r.__dict__.update(dt=dsubst(self.dt, mp), shape_=tuple(t.subst(s, mp) for s in self.shape_), el=esubst(self.el, mp),
                          ro=self.ro, parent=None, _cache=None, _pver=0, _ovr=None,
                          _log=[ev_subst(ev, mp) for ev in self._log])
        if self.parent is not None:
            r.el = esubst(self.content(), mp)
        return r

    def _freeze(self):
        r = SArr.__new__(SArr)
        r.__dict__.update(dt=self.dt, shape_=self.shape_, el=self.content() if self.parent is not None else self.el,
                          ro=self.ro, parent=None, _cache=None, _pver=0, _ovr=None, _log=list(self._log))
        return r

    def __repr__(self):
        return 'SArr(%s,%r,%r,%d)' % (self.dt, self.shape_, self.el, len(self._log))

    def __format__(self, s):
        return '<symarray>'


def ev_subst(ev, mp):
    if ev[0] == 'store':
        return ('store', tuple(('i', t.subst(x[1], mp)) if x[0] == 'i' else
                               ('s', t.subst(x[1], mp), t.subst(x[2], mp), x[3]) for x in ev[1]), esubst(ev[2], mp))
    if ev[0] == 'replace':
        return ('replace', esubst(ev[1], mp))
    ln = ev[1]
    return ('loop', LoopNode(ln.j, t.subst(ln.N, mp), [([t.subst(c, mp) for c in cs], [ev_subst(x, mp) for x in evs])
                                                      for cs, evs in ln.paths], ln.uid))


V.arr_ev_subst = ev_subst


# ------------------------------------------------ applying writes
def store_guard(idx, nd):
    """(condition over IX that the element is written, map of value-index -> IX)"""
    conds = []
    mp = {}
    for d, x in enumerate(idx):
        if x[0] == 'i':
            conds.append(t.eq(IX[d], x[1]))
        else:
            conds.append(t.le(x[1], IX[d]))
            conds.append(t.lt(IX[d], t.add(x[1], x[2])))
            mp[IXA[x[3]]] = t.sub(IX[d], x[1])
    return conds, mp


def flatten_stores(ev, loops, conds):
    if ev[0] == 'store':
        yield loops, conds, ev[1], ev[2]
    elif ev[0] == 'loop':
        ln = ev[1]
        # fresh name for the loop variable so that nested use is unambiguous
        for cs, evs in ln.paths:
            for x in evs:
                yield from flatten_stores(x, loops + [(ln.j, ln.N)], conds + list(cs))
    else:
        raise Unsupported('array replaced in a loop')


def apply_event(ev, el, arr):
    if ev[0] == 'replace':
        return ev[1]
    nd = arr.ndim
    if ev[0] == 'store':
        conds, mp = store_guard(ev[1], nd)
        conds = [c for c in conds if not in_shape(c, arr)]
        v = esubst(ev[2], mp) if mp else ev[2]
        return eite(t.band(*conds), v, el)
    stores = list(flatten_stores(ev, [], []))
    sol = []
    for loops, conds, idx, val in stores:
        g, mp = store_guard(idx, nd)
        rest = list(g)
        val = esubst(val, mp) if mp else val
        m = {}
        todo = [j for j, _ in loops]
        dims = []
        progress = True
        while todo and progress:
            progress = False
            for d, x in enumerate(idx):
                if x[0] != 'i' or d in dims:
                    continue
                tm = t.subst(x[1], m)
                fr = [a for a in todo if a in t.free(tm)]
                if len(fr) != 1:
                    continue
                a = fr[0]
                coef = dict(tm.m).get(a)
                if coef not in (1, -1) or a in t.free(t.sub(tm, t.scale(t.of_atom(a), coef))):
                    continue
                # IX[d] = tm  ->  a = (IX[d] - rest) / coef
                m[a] = t.scale(t.sub(IX[d], t.sub(tm, t.scale(t.of_atom(a), coef))), coef)
                m = {k: t.subst(v, {a: m[a]}) if k is not a else v for k, v in m.items()}
                todo.remove(a)
                dims.append(d)
                progress = True
                break
        if todo:
            raise Unsupported('scattered writes in a loop')
        cond = []
        for j, n in loops:
            v = m[j]
            cond += [t.le(t.ZERO, v), t.lt(v, t.subst(n, m))]
        cond += [t.subst(c, m) for c in conds]
        for d, x in enumerate(idx):
            if x[0] == 'i' and d not in dims:
                cond.append(t.eq(IX[d], t.subst(x[1], m)))
            elif x[0] == 's':
                cond += [t.le(t.subst(x[1], m), IX[d]), t.lt(IX[d], t.subst(t.add(x[1], x[2]), m))]
        cond = [c for c in cond if not in_shape(c, arr)]
        sol.append((t.band(*cond), esubst(val, m), tuple(sorted((j.id, d) for j, d in zip([a for a, _ in loops], dims)))))
    if len(sol) > 1 and len(set(x[2] for x in sol)) > 1:
        # different index shapes may collide across iterations: require disjointness
        raise Unsupported('overlapping writes in a loop')
    for c, v, _ in sol:
        el = eite(c, v, el)
    return el


def in_shape(c, arr):
    """condition implied by the index being inside the array"""
    if c is t.TRUE:
        return True
    for d in range(arr.ndim):
        if c is t.le(t.ZERO, IX[d]) or c is t.lt(IX[d], arr.shape_[d]):
            return True
    e = eng()
    mk = e.mark()
    try:
        try:
            for d in range(arr.ndim):
                e._assume(t.lt(IX[d], arr.shape_[d]))
        except core.PathAbort:
            return True
        return e.quick(c) is True
    finally:
        e.undo(mk)


# ------------------------------------------------ reshape / broadcast
def reshape_el(el, old, new):
    if old == new:
        return el
    old = tuple(old)
    new = tuple(new)
    # flat index of the new array
    flat = t.ZERO
    for d in range(len(new)):
        flat = t.add(t.mul(flat, new[d]), IX[d])
    no, nn = len(old), len(new)
    if no == 1:
        mp = {IXA[0]: flat}
    else:
        # strip equal trailing dimensions
        k = 0
        while k < no and k < nn and old[no - 1 - k] is new[nn - 1 - k]:
            k += 1
        if k == no - 1:
            mp = {}
            f2 = t.ZERO
            for d in range(nn - k):
                f2 = t.add(t.mul(f2, new[d]), IX[d])
            mp[IXA[0]] = f2
            for q in range(k):
                mp[IXA[no - 1 - q]] = IX[nn - 1 - q]
        elif nn == 1 or True:
            # general: decompose the flat index
            ones = [d for d in range(no) if old[d] is t.ONE]
            if len(ones) == no - 1:
                keep = [d for d in range(no) if d not in ones][0]
                mp = {IXA[d]: t.ZERO for d in ones}
                mp[IXA[keep]] = flat
            else:
                rest = toT(mkint(flat))
                mp = {}
                for d in range(no - 1, 0, -1):
                    if old[d].m:
                        raise Unsupported('reshape of a symbolic multi-dimensional array')
                    mp[IXA[d]] = t.mod(rest, old[d].c)
                    rest = t.div(rest, old[d].c)
                mp[IXA[0]] = rest
    for q in range(4):
        mp.setdefault(IXA[no + q], IX[nn + q])
    return esubst(el, mp)


def broadcast_el(a, shape):
    """element expression of a broadcast to shape"""
    e = eng()
    el = a.content()
    if a.shape_ == tuple(shape):
        return el
    k = len(shape) - a.ndim
    if k < 0:
        raise ValueError('could not broadcast input array')
    mp = {}
    for d in range(a.ndim):
        s, w = a.shape_[d], shape[d + k]
        if s is w or e.decide(t.eq(s, w)):
            mp[IXA[d]] = IX[d + k]
        elif e.decide(t.eq(s, t.ONE)):
            mp[IXA[d]] = t.ZERO
        else:
            raise ValueError('operands could not be broadcast together')
    return esubst(el, mp)


def bshape(a, b):
    e = eng()
    n = max(a.ndim, b.ndim)
    x = (t.ONE,) * (n - a.ndim) + a.shape_
    y = (t.ONE,) * (n - b.ndim) + b.shape_
    out = []
    for s, w in zip(x, y):
        if s is w or e.decide(t.eq(s, w)):
            out.append(s)
        elif e.decide(t.eq(s, t.ONE)):
            out.append(w)
        elif e.decide(t.eq(w, t.ONE)):
            out.append(s)
        else:
            raise ValueError('operands could not be broadcast together')
    return tuple(out)


def opdtype(x):
    if isinstance(x, (SArr, NpInt, NpFloat)):
        return x.dt
    if isinstance(x, (np.ndarray, np.generic)):
        return x.dtype
    if isinstance(x, (bool, SymBool)):
        return True
    if isinstance(x, (int, SymInt)):
        return 1
    if isinstance(x, (float, SymFloat)):
        return 1.0
    return None


def binop(op, a, b):
    if isinstance(a, np.ndarray):
        a = from_numpy(a)
    if isinstance(b, np.ndarray):
        b = from_numpy(b)
    da, db = opdtype(a), opdtype(b)
    if da is None or db is None:
        if op in ('eq', 'ne') and (a is None or b is None or isinstance(a, str) or isinstance(b, str)):
            return op == 'ne'
        return NotImplemented
    if isinstance(da, SDtype) or isinstance(db, SDtype):
        raise Unsupported('operation on structured array')

    def samp(d):
        return np.zeros((), d) if isinstance(d, np.dtype) else d
    if isinstance(da, np.dtype) and isinstance(db, np.dtype):
        ct = np.result_type(da, db)
    elif isinstance(da, np.dtype):
        for v, d in ((b, da),):
            if isinstance(v, int) and not isinstance(v, bool) and d.kind in 'iu':
                info = np.iinfo(d)
                if not info.min <= v <= info.max:
                    if op in ('lt', 'le', 'eq', 'ne'):
                        raise Unsupported('comparison with out-of-range scalar')
                    raise OverflowError('Python integer out of bounds')
        ct = np.result_type(np.zeros(1, da), db)
    elif isinstance(db, np.dtype):
        if isinstance(a, int) and not isinstance(a, bool) and db.kind in 'iu':
            info = np.iinfo(db)
            if not info.min <= a <= info.max:
                raise OverflowError('Python integer out of bounds')
        ct = np.result_type(da, np.zeros(1, db))
    else:
        raise Unsupported('binop on scalars')
    shape = ()
    A = a if isinstance(a, SArr) else None
    Bb = b if isinstance(b, SArr) else None
    if A is not None and Bb is not None:
        shape = bshape(A, Bb)
    elif A is not None:
        shape = A.shape_
    elif Bb is not None:
        shape = Bb.shape_

    def el_of(x, d):
        if isinstance(x, SArr):
            return broadcast_el(x, shape)
        if isinstance(x, (NpInt,)):
            return x.t
        if isinstance(x, NpFloat):
            return x.f
        return None
    out = []
    for x, d in ((a, da), (b, db)):
        el = el_of(x, d)
        if el is None:
            if op == 'pow' and ct.kind == 'f':
                el = pyscalar_el(x, ct)
            else:
                el = pyscalar_el(x, ct) if ct.kind != 'b' or isinstance(x, (bool, SymBool, np.bool_)) else pyscalar_el(x, ct)
        else:
            if op == 'div' and ct.kind in 'iu':
                pass
            el = cast_el(el, d if isinstance(d, np.dtype) else ct, ct)
        out.append(el)
    x, y = out
    if op in ('lt', 'le', 'eq', 'ne'):
        r = cmp_el(op, x, y, ct)
        dt = np.dtype('bool')
    elif op == 'div':
        if ct.kind in 'iu':
            ct = np.dtype('f8')
            x, y = i2f(x, 64), i2f(y, 64)
        r = fop('div', x, y, ct)
        dt = ct
    elif ct.kind == 'f':
        r = fop(op, x, y, ct)
        dt = ct
    elif ct.kind == 'b':
        if op == 'and':
            r = t.band(x, y)
        elif op == 'or':
            r = t.bor(x, y)
        elif op == 'xor':
            r = t.bor(t.band(x, t.bnot(y)), t.band(t.bnot(x), y))
        else:
            raise Unsupported('boolean array %s' % op)
        dt = ct
    else:
        r = iop(op, x, y, ct)
        dt = ct
    if A is None and Bb is None:
        return scalar(r, dt)
    return SArr(dt, shape, r)


def iop(op, x, y, ct):
    w = lambda v: toT(wrap(v, ct.itemsize * 8, ct.kind == 'i'))
    if op == 'add':
        return w(t.add(x, y))
    if op == 'sub':
        return w(t.sub(x, y))
    if op == 'mul':
        return w(t.mul(x, y))
    if op == 'and':
        return w(toT(V.i_and(mkint(x), mkint(y))))
    if op == 'or':
        return w(toT(V.i_or(mkint(x), mkint(y))))
    if op == 'xor':
        a = toT(V.i_or(mkint(x), mkint(y)))
        b = toT(V.i_and(mkint(x), mkint(y)))
        return w(t.sub(a, b))
    if op == 'lshift' and not y.m:
        return w(t.scale(x, 1 << y.c)) if y.c < ct.itemsize * 8 else t.ZERO
    if op == 'rshift' and not y.m:
        return t.div(x, 1 << min(y.c, 63))
    if op == 'floordiv' and not y.m and y.c > 0:
        return t.div(x, y.c)
    if op == 'mod' and not y.m and y.c > 0:
        return t.mod(x, y.c)
    raise Unsupported('integer array operation %s' % op)


def fop(op, x, y, ct):
    if op not in ('add', 'sub', 'mul', 'div', 'pow'):
        raise Unsupported('float array operation %s' % op)
    if x.k == 'const' and y.k == 'const' and 'nan' not in (x.args[0], y.args[0]) and op != 'pow':
        ty = ct.type
        p, q = ty(float.fromhex(x.args[0])), ty(float.fromhex(y.args[0]))
        with np.errstate(all='ignore'):
            v = {'add': p + q, 'sub': p - q, 'mul': p * q, 'div': p / q if q else None}[op]
        if v is not None:
            return toF(float(v))
    if op in ('add', 'mul') and x.id > y.id:
        x, y = y, x
    name = op if ct.itemsize == 8 else op + str(ct.itemsize * 8)
    return t.fterm(name, x, y)


def cmp_el(op, x, y, ct):
    if ct.kind == 'f':
        if op == 'ne':
            return t.bnot(cmp_el('eq', x, y, ct))
        if op == 'eq' and x.id > y.id:
            x, y = y, x
        return t.bapp('f' + op, (x, y))
    if ct.kind == 'b':
        eqv = t.bor(t.band(x, y), t.band(t.bnot(x), t.bnot(y)))
        if op == 'eq':
            return eqv
        if op == 'ne':
            return t.bnot(eqv)
        raise Unsupported('order on booleans')
    return {'lt': t.lt, 'le': t.le, 'eq': t.eq, 'ne': lambda p, q: t.bnot(t.eq(p, q))}[op](x, y)


# ================================================================ selections
class MaskSel:
    """a[mask]: elements where the mask holds, in order"""
    __hash__ = None

    def __init__(self, arr, mask):
        e = eng()
        if arr.ndim != 1 or mask.ndim != 1:
            raise Unsupported('multi-dimensional mask')
        if not e.decide(t.eq(arr.shape_[0], mask.shape_[0])):
            raise IndexError('boolean index did not match')
        self.arr = arr._freeze()
        self.mask = mask.content()
        self.N = arr.shape_[0]
        self.dt = arr.dt

    @property
    def dtype(self):
        return self.dt

    def view(self, d):
        r = MaskSel.__new__(MaskSel)
        r.__dict__.update(self.__dict__)
        r.arr = self.arr.view(d)
        r.dt = r.arr.dt
        return r

    def astype(self, d):
        r = MaskSel.__new__(MaskSel)
        r.__dict__.update(self.__dict__)
        r.arr = self.arr.astype(d)
        r.dt = r.arr.dt
        return r

    def copy(self):
        return self

    def __getitem__(self, k):
        if isinstance(k, str):
            r = MaskSel.__new__(MaskSel)
            r.__dict__.update(self.__dict__)
            r.arr = self.arr[k]
            r.dt = r.arr.dt
            return r
        raise Unsupported('index into a selection')

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('selection.%s' % k)

    def _vsubst(self, mp):
        r = MaskSel.__new__(MaskSel)
        r.arr = self.arr._vsubst(mp)
        r.mask = t.subst(self.mask, mp)
        r.N = t.subst(self.N, mp)
        r.dt = r.arr.dt
        return r


def np_any(a):
    if not isinstance(a, SArr):
        raise Unsupported('any')
    el = a.content()
    if a.dt.kind != 'b':
        el = nonzero(el, a.dt)
    return mkbool(quant(el, a.shape_))


def s_all(a):
    el = a.content()
    if a.dt.kind != 'b':
        el = nonzero(el, a.dt)
    r = quant(t.bnot(el), a.shape_)
    return mkbool(t.bnot(r))


def nonzero(el, dt):
    if isinstance(el, T):
        return t.bnot(t.eq0(el))
    return t.bnot(cmp_el('eq', el, toF(0.0), dt))


def quant(el, shape):
    """exists index in shape with el   (opaque predicate, keyed by its body)"""
    if el is t.FALSE:
        return t.FALSE
    n = t.ONE
    for s in shape:
        n = t.mul(n, s)
    if el is t.TRUE:
        return t.lt(t.ZERO, n)
    return t.band(t.lt(t.ZERO, n), t.bapp('exists', (el,) + tuple(shape)))


# ================================================================ constructors
def from_numpy(a):
    if a.dtype.names:
        raise Unsupported('structured numpy constant')
    sh = tuple(t.const(s) for s in a.shape)
    if a.size > 64:
        v = a.reshape(-1)
        if (v == v[0]).all():
            return SArr(a.dtype, sh, pyscalar_el(v[0].item(), a.dtype))
        raise Unsupported('large numpy constant')
    el = pyscalar_el(a.reshape(-1)[-1].item(), a.dtype) if a.size else pyscalar_el(0, a.dtype)
    for ix in reversed(list(np.ndindex(*a.shape))):
        el = eite(t.band(*[t.eq(IX[d], t.const(i)) for d, i in enumerate(ix)]), pyscalar_el(a[ix].item(), a.dtype), el)
    return SArr(a.dtype, sh, el)


def shape_of(s):
    if isinstance(s, (tuple, list, SList)):
        return tuple(toT(q) for q in s)
    return (toT(s),)


def full(shape, v, dt):
    sh = shape_of(shape)
    e = eng()
    for s in sh:
        if s is None:
            raise TypeError('expected a sequence of integers')
        if not e.decide(t.le(t.ZERO, s)):
            raise ValueError('negative dimensions are not allowed')
    dt = mkdtype(dt)
    if isinstance(dt, SDtype):
        if v == 0:
            return SArr(dt, sh, {n: pyscalar_el(0, d) for n, d, _ in dt.fields_})
        raise Unsupported('full of structured')
    return SArr(dt, sh, pyscalar_el(v, dt))


def uninit(shape, dt):
    sh = shape_of(shape)
    e = eng()
    for s in sh:
        if not e.decide(t.le(t.ZERO, s)):
            raise ValueError('negative dimensions are not allowed')
    e.uid += 1
    dt = mkdtype(dt)
    if isinstance(dt, SDtype):
        raise Unsupported('empty of structured')
    if dt.kind in 'iu':
        b = 8 * dt.itemsize
        lo, hi = (-(1 << b - 1), (1 << b - 1) - 1) if dt.kind == 'i' else (0, (1 << b) - 1)
        el = t.app('uninit!%d' % e.uid, tuple(IX[:len(sh)]), lo, hi)
    elif dt.kind == 'f':
        el = t.fterm('uninit!%d' % e.uid, *IX[:len(sh)])
    else:
        el = t.bapp('uninit!%d' % e.uid, tuple(IX[:len(sh)]))
    return SArr(dt, sh, el)


def frombuffer(data, dtype=float, count=-1, offset=0):
    e = eng()
    d = mkdtype(dtype)
    if isinstance(data, SArr):
        raise Unsupported('frombuffer of array')
    data = as_sbytes(data)
    if data is None:
        raise TypeError('a bytes-like object is required')
    size = d.size if isinstance(d, SDtype) else t.const(d.itemsize)
    n = data.tlen()
    off, cnt = toT(offset), toT(count)
    if off is None or cnt is None:
        raise TypeError('an integer is required')
    if not (e.decide(t.le(t.ZERO, off)) and e.decide(t.le(off, n))):
        raise ValueError('offset must be non-negative and no greater than buffer length')
    avail = t.sub(n, off)
    if e.decide(t.le(t.ZERO, cnt)):
        if not e.decide(t.le(t.mul(cnt, size), avail)):
            raise ValueError('buffer is smaller than requested size')
    else:
        q = V.i_div(mkint(avail), mkint(size))
        if isinstance(q, int):
            cnt = t.const(q)
        else:
            cnt = toT(q)
        if not e.decide(t.eq(t.mul(cnt, size), avail)):
            raise ValueError('buffer size must be a multiple of element size')
    if cnt is t.ZERO:
        pass
    base = t.add(off, t.mul(IX[0], size))
    segs = data.segs
    if not segs:
        segs = (('c', b''),)
    if len(segs) != 1:
        # a buffer with several segments: concrete count only
        if cnt.m or isinstance(d, SDtype):
            raise Unsupported('array over composite bytes')
        els = [data.load(dkind(d), d.itemsize, t.addc(off, i * d.itemsize)) for i in range(cnt.c)]
        el = els[-1] if els else pyscalar_el(0, d)
        for i in range(len(els) - 1, -1, -1):
            el = eite(t.eq(IX[0], t.const(i)), els[i], el)
        return SArr(d, (cnt,), el, ro=True)
    seg = segs[0]

    def load(dd, pos):
        if seg[0] == 'b':
            v = seg[1].load(dkind(dd), t.add(seg[2], pos))
        elif seg[0] == 'c':
            v = const_load(seg[1], dd, pos)
        else:
            v = V.simp_load(dkind(dd), dd.itemsize, [V.segbyte(seg, t.addc(pos, q)) for q in range(dd.itemsize)])
        if dd.kind == 'b':
            return t.bnot(t.eq0(v))
        return v
    if isinstance(d, SDtype):
        el = {}
        for nme, dd, sh in d.fields_:
            p = t.add(base, d.off[nme])
            inner = t.ZERO
            for k, s in enumerate(sh):
                inner = t.add(t.mul(inner, s), IX[1 + k])
            el[nme] = load(dd, t.add(p, t.scale(inner, dd.itemsize)))
    else:
        el = load(d, base)
    return SArr(d, (cnt,), el, ro=True)


def const_load(raw, dd, pos):
    if len(raw) < dd.itemsize:
        return pyscalar_el(0, dd)
    if not pos.m:
        return pyscalar_el(np.frombuffer(raw, dd, 1, pos.c)[0].item(), dd)
    raise Unsupported('array over constant bytes')


def asarray(x, dtype=None):
    """np.array(x)"""
    if isinstance(x, SArr):
        return x.astype(dtype) if dtype is not None else x.copy()
    if isinstance(x, np.ndarray):
        return np.array(x, dtype=dtype)
    d = mkdtype(dtype) if dtype is not None else None
    if isinstance(x, (tuple, list)):
        x = SList(x)
    if isinstance(x, SList):
        if x.is_native():
            items = x.native()
            if not items:
                if isinstance(d, SDtype):
                    return SArr(d, (t.ZERO,), {n: pyscalar_el(0, dd) for n, dd, _ in d.fields_})
                return SArr(d or np.dtype('f8'), (t.ZERO,), pyscalar_el(0, d or np.dtype('f8')))
            if isinstance(d, SDtype):
                raise Unsupported('array of records')
            if any(isinstance(i, (SList, tuple, list)) for i in items):
                raise Unsupported('nested array display')
            d = d or common_dtype(items)
            el = pyscalar_el(items[-1], d)
            for i in range(len(items) - 2, -1, -1):
                el = eite(t.eq(IX[0], t.const(i)), pyscalar_el(items[i], d), el)
            return SArr(d, (t.const(len(items)),), el)
        ln = x.single_loop()
        if ln is None:
            raise Unsupported('array of an irregular list')
        probe = [evs[0][1] for _, evs in ln.paths]
        d = d or common_dtype(probe)
        el = None
        for conds, evs in reversed(ln.paths):
            v = pyscalar_el(evs[0][1], d)
            el = v if el is None else eite(t.band(*conds), v, el)
        return SArr(d, (ln.N,), esubst(el, {ln.j: IX[0]}))
    raise Unsupported('np.array of %s' % type(x).__name__)


def common_dtype(items):
    ks = set()
    for i in items:
        if isinstance(i, (NpInt, NpFloat)):
            ks.add(i.dt)
        elif isinstance(i, np.generic):
            ks.add(i.dtype)
        elif isinstance(i, (bool, SymBool)):
            ks.add(np.dtype('bool'))
        elif isinstance(i, (int, SymInt)):
            ks.add(np.dtype('i8'))
        elif isinstance(i, (float, SymFloat)):
            ks.add(np.dtype('f8'))
        else:
            raise Unsupported('array of %s' % type(i).__name__)
    return np.result_type(*ks)


def squeeze(a, axis=None):
    e = eng()
    if isinstance(a, np.ndarray):
        return np.squeeze(a, axis)
    if axis is None:
        axes = [d for d in range(a.ndim) if e.decide(t.eq(a.shape_[d], t.ONE))]
    else:
        if a.ndim == 0:
            raise ValueError('axis out of bounds')
        axes = [axis % a.ndim]
        if not e.decide(t.eq(a.shape_[axes[0]], t.ONE)):
            raise ValueError('cannot select an axis to squeeze out which has size not equal to one')
    mp = {}
    sh = []
    for d in range(a.ndim):
        if d in axes:
            mp[IXA[d]] = t.ZERO
        else:
            mp[IXA[d]] = IX[len(sh)]
            sh.append(a.shape_[d])
    return SArr(a.dt, sh, esubst(a.content(), mp), ro=a.ro)


def npclip(a, lo, hi):
    if lo is None or hi is None or a.dt.kind != 'f':
        raise Unsupported('clip')
    l, h = pyscalar_el(lo, a.dt), pyscalar_el(hi, a.dt)
    return SArr(a.dt, a.shape_, t.fterm('clip%d' % (a.dt.itemsize * 8), a.content(), l, h))


def repeat(v, n, axis=None):
    if isinstance(v, (SArr, np.ndarray, list, tuple, SList)) or axis is not None:
        raise Unsupported('repeat of array')
    if isinstance(v, (NpInt, NpFloat, np.generic)):
        d = v.dtype
    else:
        d = common_dtype([v])
    return full(n, v, d)


def fromarrays(arrays, names=None, dtype=None, **kw):
    if kw or dtype is not None:
        raise Unsupported('fromarrays options')
    if isinstance(names, str):
        names = [x.strip() for x in names.split(',')]
    names = list(names)
    cols = list(arrays) if not isinstance(arrays, SArr) else list(arrays)
    if len(cols) != len(names):
        raise ValueError('mismatch between the number of fields and the number of arrays')
    dt = SDtype([(n, c.dt, ()) for n, c in zip(names, cols)])
    sh = cols[0].shape_
    for c in cols[1:]:
        if c.shape_ != sh:
            for x, y in zip(c.shape_, sh):
                if not eng().decide(t.eq(x, y)):
                    raise ValueError('array-shape mismatch')
    return SArr(dt, sh, {n: c.content() for n, c in zip(names, cols)})
