"""Symbolic values that the real code runs on."""
from . import terms as t
from .terms import T, B, F, Atom
from . import core
from .core import Unsupported, eng


# ================================================================ integers
def toT(x):
    if isinstance(x, SymInt):
        return x.t
    if isinstance(x, SymBool):
        return t.ite(x.b, t.ONE, t.ZERO)
    if isinstance(x, bool):
        return t.ONE if x else t.ZERO
    if isinstance(x, int):
        return t.const(x)
    if isinstance(x, T):
        return x
    try:
        import numpy as np
        if isinstance(x, np.integer):
            return t.const(int(x))
    except ImportError:
        pass
    return None


def mkint(x):
    if not x.m:
        return x.c
    return SymInt(x)


def mkbool(b):
    if b is t.TRUE:
        return True
    if b is t.FALSE:
        return False
    q = eng().quick(b)
    if q is not None:
        return q
    return SymBool(b)


def toB(x):
    if isinstance(x, SymBool):
        return x.b
    if isinstance(x, B):
        return x
    if isinstance(x, SymInt):
        return t.bnot(t.eq0(x.t))
    return t.TRUE if x else t.FALSE


class Poison:
    """value left over from a loop iteration that is not tracked"""
    def __init__(self, name):
        object.__setattr__(self, '_n', name)

    def _die(self, *a, **k):
        raise Unsupported('use of untracked loop-carried value %s' % object.__getattribute__(self, '_n'))

    def __getattr__(self, k):
        self._die()

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __lt__ = __le__ = __gt__ = __ge__ = _die
    __eq__ = __ne__ = __bool__ = __iter__ = __call__ = __getitem__ = __setitem__ = __contains__ = _die
    __iadd__ = __and__ = __or__ = __xor__ = __neg__ = __len__ = __index__ = _die
    __hash__ = object.__hash__


def symbolic(x):
    return isinstance(x, (SymInt, SymBool, SymFloat))


class SymInt:
    __slots__ = ('t',)

    def __init__(self, x):
        self.t = x

    def _bin(self, o, f):
        y = toT(o)
        if y is None:
            if isinstance(o, (SymFloat, float)):
                return NotImplemented
            return NotImplemented
        return mkint(f(self.t, y))

    def __add__(self, o):
        return self._bin(o, t.add)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, t.sub)

    def __rsub__(self, o):
        y = toT(o)
        return NotImplemented if y is None else mkint(t.sub(y, self.t))

    def __mul__(self, o):
        if isinstance(o, (bytes, str, list, tuple)):
            raise Unsupported('sequence repetition by symbolic count')
        return self._bin(o, t.mul)
    __rmul__ = __mul__

    def __neg__(self):
        return mkint(t.scale(self.t, -1))

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if (self < 0) else self

    def __invert__(self):
        return mkint(t.addc(t.scale(self.t, -1), -1))

    def __floordiv__(self, o):
        return i_div(self, o)

    def __rfloordiv__(self, o):
        return i_div(o, self)

    def __mod__(self, o):
        return i_mod(self, o)

    def __rmod__(self, o):
        if isinstance(o, (str, bytes)):
            return str(o)
        return i_mod(o, self)

    def __divmod__(self, o):
        return (i_div(self, o), i_mod(self, o))

    def __rdivmod__(self, o):
        return (i_div(o, self), i_mod(o, self))

    def __truediv__(self, o):
        return f_op('div', self, o)

    def __rtruediv__(self, o):
        return f_op('div', o, self)

    def __and__(self, o):
        return i_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return i_or(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        x, y = toT(self), toT(o)
        if y is None:
            return NotImplemented
        a = toT(i_or(self, o))
        b = toT(i_and(self, o))
        return mkint(t.sub(a, b))
    __rxor__ = __xor__

    def __lshift__(self, o):
        y = toT(o)
        if y is None:
            return NotImplemented
        if y.m:
            raise Unsupported('shift by symbolic amount')
        return mkint(t.scale(self.t, 1 << y.c))

    def __rlshift__(self, o):
        return i_shl(o, self)

    def __rshift__(self, o):
        y = toT(o)
        if y is None:
            return NotImplemented
        if y.m:
            raise Unsupported('shift by symbolic amount')
        return mkint(t.div(self.t, 1 << y.c))

    def __rrshift__(self, o):
        raise Unsupported('shift by symbolic amount')

    def __pow__(self, o, m=None):
        raise Unsupported('power of symbolic')

    def _cmp(self, o, f):
        y = toT(o)
        if y is None:
            if isinstance(o, (float, SymFloat)):
                return NotImplemented
            return NotImplemented
        return mkbool(f(self.t, y))

    def __lt__(self, o):
        if isinstance(o, (float, SymFloat)):
            return f_cmp('lt', self, o)
        return self._cmp(o, t.lt)

    def __le__(self, o):
        if isinstance(o, (float, SymFloat)):
            return f_cmp('le', self, o)
        return self._cmp(o, t.le)

    def __gt__(self, o):
        if isinstance(o, (float, SymFloat)):
            return f_cmp('lt', o, self)
        return self._cmp(o, lambda a, b: t.lt(b, a))

    def __ge__(self, o):
        if isinstance(o, (float, SymFloat)):
            return f_cmp('le', o, self)
        return self._cmp(o, lambda a, b: t.le(b, a))

    def __eq__(self, o):
        if o is None or isinstance(o, (str, bytes)):
            return False
        if isinstance(o, (float, SymFloat)):
            return f_cmp('eq', self, o)
        return self._cmp(o, t.eq)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return s_not(r)

    def __bool__(self):
        return not eng().decide(t.eq0(self.t))

    def __hash__(self):
        raise Unsupported('hash of symbolic integer')

    def __index__(self):
        lo, hi = eng().interval(self.t)
        if lo is not None and lo == hi:
            return lo
        # a small finite range can be enumerated by case split
        if lo is not None and hi is not None and hi - lo <= 64:
            for v in range(lo, hi + 1):
                if eng().decide(t.eq(self.t, t.const(v))):
                    return v
            raise core.PathAbort()
        raise Unsupported('symbolic integer used as native index')

    __int__ = __index__

    def __float__(self):
        raise Unsupported('float() of symbolic')

    def __format__(self, spec):
        return '<sym>'

    def __repr__(self):
        return '<%r>' % (self.t,)

    def bit_count(self):
        return i_bitcount(self)

    def bit_length(self):
        raise Unsupported('bit_length')

    def item(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # numpy scalar look-alikes
    ndim = 0
    shape = ()


def i_div(a, b):
    x, y = toT(a), toT(b)
    if x is None or y is None:
        return NotImplemented
    if y.m:
        if eng().decide(t.eq0(y)):
            raise ZeroDivisionError('integer division or modulo by zero')
        # (q*y) // y
        q = exact_quotient(x, y)
        if q is not None:
            return mkint(q)
        return mkint(sym_div(x, y))
    if y.c == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    if y.c < 0:
        return mkint(t.div(t.scale(x, -1), -y.c))
    return mkint(t.div(x, y.c))


def sym_div(x, y):
    """floor(x / y) for a symbolic divisor known to be non-zero"""
    e = eng()
    if not e.entails(t.lt(t.ZERO, y)):
        return t.app('fdiv', (x, y))
    for k in range(9):
        if e.entails(t.band(t.le(t.scale(y, k), x), t.lt(x, t.scale(y, k + 1)))):
            return t.const(k)
    q = t.app('fdiv', (x, y))
    m = t.mul(q, y)
    e._assume(t.le(m, x))
    e._assume(t.lt(x, t.add(m, y)))
    return q


def exact_quotient(x, y):
    """x / y when x is a syntactic multiple of the single-atom-product y"""
    if len(y.m) != 1 or y.c != 0:
        return None
    ya, yk = y.m[0]
    yf = list(ya.args) if ya.kind == 'mul' else [ya]
    out = t.ZERO
    if x.c:
        return None
    for a, k in x.m:
        if k % yk:
            return None
        f = list(a.args) if a.kind == 'mul' else [a]
        for q in yf:
            if q not in f:
                return None
            f.remove(q)
        r = t.const(k // yk)
        for q in f:
            r = t.mul(r, t.of_atom(q))
        out = t.add(out, r)
    return out


def i_mod(a, b):
    x, y = toT(a), toT(b)
    if x is None or y is None:
        return NotImplemented
    if y.m:
        if eng().decide(t.eq0(y)):
            raise ZeroDivisionError('integer division or modulo by zero')
        if exact_quotient(x, y) is not None:
            return 0
        return mkint(t.sub(x, t.mul(sym_div(x, y), y)))
    if y.c == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    if y.c < 0:
        raise Unsupported('negative modulus')
    return mkint(t.mod(x, y.c))


def runs(mask):
    out = []
    i = 0
    while mask >> i:
        if (mask >> i) & 1:
            j = i
            while (mask >> j) & 1:
                j += 1
            out.append((i, j - i))
            i = j
        else:
            i += 1
    return out


def and_const(x, c):
    """x & c for constant c >= 0 (x any integer, two's complement)"""
    out = t.ZERO
    bm = t.bitsmask(x)
    if bm is not None:
        c &= bm
    for pos, n in runs(c):
        out = t.add(out, t.scale(t.mod(t.div(x, 1 << pos), 1 << n), 1 << pos))
    return out


def i_and(a, b):
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
            return mkbool(t.band(toB(a), toB(b)))
    x, y = toT(a), toT(b)
    if x is None or y is None:
        return NotImplemented
    if not x.m:
        x, y = y, x
    if not y.m:
        c = y.c
        if not x.m:
            return x.c & c
        if c >= 0:
            return mkint(and_const(x, c))
        # x & c = x - (x & ~c)
        return mkint(t.sub(x, and_const(x, ~c)))
    bx, by = t.bitsmask(x), t.bitsmask(y)
    if bx is not None and by is not None:
        if bx & by == 0:
            return 0
        if bin(bx & by).count('1') <= 16:
            out = t.ZERO
            for k in range((bx & by).bit_length()):
                if (bx & by) >> k & 1:
                    xb = t.mod(t.div(x, 1 << k), 2)
                    yb = t.mod(t.div(y, 1 << k), 2)
                    out = t.add(out, t.scale(t.ite(t.eq(xb, t.ONE), yb, t.ZERO), 1 << k))
            return mkint(out)
    for u, bv in ((x, by), (y, bx)):
        if bv is not None and bv.bit_length() <= t.trailing(u):
            return 0
    xs = sorted([x, y], key=lambda q: q.id)
    return mkint(t.app('bvand', tuple(xs)))


def i_or(a, b):
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        return mkbool(t.bor(toB(a), toB(b)))
    x, y = toT(a), toT(b)
    if x is None or y is None:
        return NotImplemented
    n = i_and(a, b)
    return mkint(t.sub(t.add(x, y), toT(n)))


def i_shl(a, b):
    """a << b"""
    x, y = toT(a), toT(b)
    if not y.m:
        return mkint(t.scale(x, 1 << y.c))
    lo, hi = eng().interval(y)
    if lo is None or hi is None or hi - lo > 64:
        raise Unsupported('shift by symbolic amount')
    out = None
    for v in range(hi, lo - 1, -1):
        w = t.scale(x, 1 << v)
        out = w if out is None else t.ite(t.eq(y, t.const(v)), w, out)
    return mkint(out)


def i_bitcount(a):
    x = toT(a)
    if not x.m:
        return int(x.c).bit_count()
    bm = t.bitsmask(x)
    if bm is None:
        raise Unsupported('bit_count of unbounded value')
    out = t.ZERO
    for k in range(bm.bit_length()):
        if bm >> k & 1:
            out = t.add(out, t.mod(t.div(x, 1 << k), 2))
    return mkint(out)


def wrap(a, bits, signed):
    """C conversion to an integer type"""
    x = toT(a)
    lo, hi = eng().interval(x)
    m = 1 << bits
    if signed:
        if lo is not None and hi is not None and -(m >> 1) <= lo and hi < (m >> 1):
            return mkint(x)
        h = m >> 1
        return mkint(t.addc(t.mod(t.addc(x, h), m), -h))
    if lo is not None and hi is not None and lo >= 0 and hi < m:
        return mkint(x)
    return mkint(t.mod(x, m))


# ================================================================ booleans
class SymBool:
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return eng().decide(self.b)

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(t.band(self.b, toB(o)))
        return i_and(mkint(toT(self)), o)
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(t.bor(self.b, toB(o)))
        return i_or(mkint(toT(self)), o)
    __ror__ = __or__

    def __invert__(self):
        return mkbool(t.bnot(self.b))

    def __add__(self, o):
        return mkint(toT(self)) + o
    __radd__ = __add__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            x, y = self.b, toB(o)
            return mkbool(t.bor(t.band(x, y), t.band(t.bnot(x), t.bnot(y))))
        if isinstance(o, (int, SymInt)):
            return mkint(toT(self)) == o
        return False

    def __ne__(self, o):
        return s_not(self.__eq__(o))

    def __hash__(self):
        raise Unsupported('hash of symbolic boolean')

    def __index__(self):
        return 1 if bool(self) else 0
    __int__ = __index__

    def __format__(self, s):
        return '<symbool>'

    def __repr__(self):
        return '<%r>' % (self.b,)


def s_not(x):
    if isinstance(x, SymBool):
        return mkbool(t.bnot(x.b))
    return not x


# ================================================================ floats
def toF(x):
    if isinstance(x, SymFloat):
        return x.f
    if isinstance(x, F):
        return x
    if isinstance(x, (SymInt, SymBool)):
        return t.fterm('i2f', toT(x))
    if isinstance(x, (int, float)):
        return t.fterm('const', float(x).hex() if x == x else 'nan')
    import numpy as np
    if isinstance(x, np.generic):
        return t.fterm('const', float(x).hex() if x == x else 'nan')
    return None


def f_op(op, *xs):
    fs = [toF(x) for x in xs]
    if any(f is None for f in fs):
        return NotImplemented
    if op in ('add', 'mul'):
        fs.sort(key=lambda q: q.id)
    if op == 'neg' and fs[0].k == 'neg':
        return SymFloat(fs[0].args[0])
    return SymFloat(t.fterm(op, *fs))


def f_cmp(op, a, b):
    x, y = toF(a), toF(b)
    if x is None or y is None:
        return NotImplemented
    if op == 'eq' and x.id > y.id:
        x, y = y, x
    return mkbool(t.bapp('f' + op, (x, y)))


class SymFloat:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __add__(self, o):
        return f_op('add', self, o)
    __radd__ = __add__

    def __sub__(self, o):
        return f_op('sub', self, o)

    def __rsub__(self, o):
        return f_op('sub', o, self)

    def __mul__(self, o):
        return f_op('mul', self, o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return f_op('div', self, o)

    def __rtruediv__(self, o):
        return f_op('div', o, self)

    def __neg__(self):
        return f_op('neg', self)

    def __pow__(self, o):
        return f_op('pow', self, o)

    def __rpow__(self, o):
        return f_op('pow', o, self)

    def __lt__(self, o):
        return f_cmp('lt', self, o)

    def __le__(self, o):
        return f_cmp('le', self, o)

    def __gt__(self, o):
        return f_cmp('lt', o, self)

    def __ge__(self, o):
        return f_cmp('le', o, self)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, bytes)):
            return False
        return f_cmp('eq', self, o)

    def __ne__(self, o):
        return s_not(self.__eq__(o))

    def __bool__(self):
        return not bool(f_cmp('eq', self, 0.0))

    def __hash__(self):
        raise Unsupported('hash of symbolic float')

    def __format__(self, s):
        return '<symfloat>'

    def __repr__(self):
        return '<%r>' % (self.f,)

    def item(self):
        return self

    def __float__(self):
        raise Unsupported('float() of symbolic')

    def __int__(self):
        raise Unsupported('int() of symbolic float')

    ndim = 0
    shape = ()


# ================================================================ byte strings
class Buf:
    """an unknown byte string of unknown length"""
    def __init__(self, name, length):
        self.name = name
        self.length = length      # T

    def u8(self, p):
        return t.app('U8@' + self.name, (p,), 0, 255)

    def load(self, kind, p):
        """kind: i1 u1 i2 u2 i4 u4 i8 u8 (T)  f4 f8 (F)"""
        if kind in ('u1', 'b1'):
            return self.u8(p)
        if kind[0] in 'iu':
            n = int(kind[1]) * 8
            if kind[0] == 'i':
                return t.app('I%d@%s' % (n, self.name), (p,), -(1 << n - 1), (1 << n - 1) - 1)
            return t.app('U%d@%s' % (n, self.name), (p,), 0, (1 << n) - 1)
        return t.fterm('F%d@%s' % (int(kind[1]) * 8, self.name), p)


def register_buf_axioms(e, name):
    def mkax(bits, signed):
        def ax(e, a, allatoms, level):
            if level < 2:
                return []
            p = a.args[1]
            s = t.ZERO
            for i in range(bits // 8):
                s = t.add(s, t.scale(t.app('U8@' + name, (t.addc(p, i),), 0, 255), 1 << (8 * i)))
            if signed:
                h = 1 << (bits - 1)
                return [t.eq(t.mod(t.sub(t.of_atom(a), s), 1 << bits), t.ZERO)]
            return [t.eq(t.of_atom(a), s)]
        return ax
    for n in (8, 16, 32, 64):
        e.fnaxioms['I%d@%s' % (n, name)] = mkax(n, True)
        if n > 8:
            e.fnaxioms['U%d@%s' % (n, name)] = mkax(n, False)


def define_load(kind, size, bytes_):
    """value of a little-endian load from explicit byte terms (list of T)"""
    if kind == 'b1':
        kind = 'u1'
    if kind[0] in 'iu':
        s = t.ZERO
        for i, b in enumerate(bytes_):
            s = t.add(s, t.scale(b, 1 << (8 * i)))
        if kind[0] == 'u':
            return s
        h = 1 << (8 * size - 1)
        return t.addc(t.mod(t.addc(s, h), 1 << (8 * size)), -h)
    return t.fterm('Fbytes%d' % (size * 8), *bytes_)


class SBytes:
    """immutable byte string: tuple of segments
       ('b', Buf, start T, length T)  |  ('c', bytes) | ('t', [T bytes]) | ('o', token, len T)"""
    __slots__ = ('segs', 'mutable', '_reg')
    __hash__ = None

    def __init__(self, segs):
        out = []
        for s in segs:
            if s[0] == 'c' and not s[1]:
                continue
            if s[0] == 'b':
                if s[3] is t.ZERO:
                    continue
                if out and out[-1][0] == 'b' and out[-1][1] is s[1] and t.add(out[-1][2], out[-1][3]) is s[2]:
                    p = out.pop()
                    s = ('b', s[1], p[2], t.add(p[3], s[3]))
            if s[0] == 't' and not s[1]:
                continue
            if s[0] == 'r' and not s[2].m:
                s = ('c', bytes([s[1]]) * s[2].c)
                if not s[1]:
                    continue
            if out and out[-1][0] == 'c' and s[0] == 'c':
                p = out.pop()
                s = ('c', p[1] + s[1])
            out.append(s)
        self.segs = tuple(out)

    # -------- size
    def tlen(self):
        n = t.ZERO
        for s in self.segs:
            n = t.add(n, seglen(s))
        return n

    def __symlen__(self):
        return mkint(self.tlen())

    def __len__(self):
        v = self.__symlen__()
        if isinstance(v, int):
            return v
        raise Unsupported('native len() of symbolic bytes')

    def __bool__(self):
        return bool(mkbool(t.bnot(t.eq0(self.tlen()))))

    # -------- access
    def byte(self, i):
        """T of byte at offset i (T), assumed in range"""
        off = t.ZERO
        e = eng()
        if len(self.segs) == 1:
            return segbyte(self.segs[0], i)
        for k, s in enumerate(self.segs):
            n = seglen(s)
            end = t.add(off, n)
            if k == len(self.segs) - 1 or e.decide(t.lt(i, end)):
                return segbyte(s, t.sub(i, off))
            off = end
        raise Unsupported('byte of empty')

    def load(self, kind, size, i):
        """little endian value of `size` bytes at offset i (T); assumed in range"""
        e = eng()
        off = t.ZERO
        for k, s in enumerate(self.segs):
            n = seglen(s)
            end = t.add(off, n)
            last = k == len(self.segs) - 1
            if last or e.decide(t.le(t.addc(i, size), end)):
                if last or e.decide(t.le(off, i)):
                    if s[0] == 'b':
                        return s[1].load(kind, t.add(s[2], t.sub(i, off)))
                    bs = [segbyte(s, t.addc(t.sub(i, off), q)) for q in range(size)]
                    return simp_load(kind, size, bs)
                break
            off = end
        bs = [self.byte(t.addc(i, q)) for q in range(size)]
        return simp_load(kind, size, bs)

    def slice(self, a, b):
        """bytes [a, b) with 0<=a<=b<=len known (T)"""
        e = eng()
        out = []
        off = t.ZERO
        for k, s in enumerate(self.segs):
            n = seglen(s)
            end = t.add(off, n)
            last = k == len(self.segs) - 1
            if len(self.segs) == 1:
                out.append(segslice(s, a, b))
                break
            # does the segment end before a?
            if not last and e.decide(t.le(end, a)):
                off = end
                continue
            if e.decide(t.le(b, off)):
                break
            lo = t.sub(a, off) if e.decide(t.le(off, a)) else t.ZERO
            hi = t.sub(b, off) if (last or e.decide(t.le(b, end))) else n
            out.append(segslice(s, lo, hi))
            off = end
        return SBytes(out)

    def clip(self, x, default):
        """python slice index normalisation"""
        e = eng()
        n = self.tlen()
        if x is None:
            return default
        v = toT(x)
        if v is None:
            raise TypeError('slice indices must be integers or None or have an __index__ method')
        if not e.decide(t.le(t.ZERO, v)):
            v = t.add(v, n)
            if not e.decide(t.le(t.ZERO, v)):
                v = t.ZERO
        if e.decide(t.le(v, n)):
            return v
        e.short = True
        return n

    def __getitem__(self, i):
        e = eng()
        if isinstance(i, slice):
            if i.step is not None and i.step != 1:
                if all(s[0] == 'c' for s in self.segs):
                    return b''.join(s[1] for s in self.segs)[i]
                raise Unsupported('stepped byte slice')
            n = self.tlen()
            sh = e.short
            a = self.clip(i.start, t.ZERO)
            b = self.clip(i.stop, n)
            if not e.decide(t.le(a, b)):
                return b''
            return norm_bytes(self.slice(a, b))
        v = toT(i)
        if v is None:
            raise TypeError('byte indices must be integers or slices')
        n = self.tlen()
        if not e.decide(t.le(t.ZERO, v)):
            v = t.add(v, n)
            if not e.decide(t.le(t.ZERO, v)):
                raise IndexError('index out of range')
        if not e.decide(t.lt(v, n)):
            raise IndexError('index out of range')
        return mkint(self.byte(v))

    def __add__(self, o):
        o = as_sbytes(o)
        if o is None:
            return NotImplemented
        return norm_bytes(SBytes(self.segs + o.segs))

    def __radd__(self, o):
        o = as_sbytes(o)
        if o is None:
            return NotImplemented
        return norm_bytes(SBytes(o.segs + self.segs))

    def __eq__(self, o):
        if isinstance(o, (int, float, str)) or o is None:
            return False
        o = as_sbytes(o)
        if o is None:
            return False
        return mkbool(bytes_eq(self, o))

    def __ne__(self, o):
        return s_not(self.__eq__(o))

    def __iter__(self):
        n = self.__symlen__()
        if isinstance(n, int):
            return iter([self[i] for i in range(n)])
        raise Unsupported('native iteration over symbolic bytes')

    def decode(self, encoding='utf-8', errors='strict'):
        return SStr(self, encoding.replace('_', '-').lower(), errors)

    def tobytes(self):
        return self

    def __repr__(self):
        return 'SBytes%r' % (self.segs,)

    def __format__(self, s):
        return '<symbytes>'

    def startswith(self, p, *a):
        if a:
            raise Unsupported('startswith range')
        return self[:len(p)] == p

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('bytes.%s' % k)


def simp_load(kind, size, bs):
    """recognise bytes that are consecutive loads from one buffer"""
    if size > 1:
        a0 = bs[0].m[0][0] if bs[0].c == 0 and len(bs[0].m) == 1 and bs[0].m[0][1] == 1 else None
        if a0 is not None and a0.kind == 'app' and a0.args[0].startswith('U8@'):
            p = a0.args[1]
            for i, b in enumerate(bs):
                if b is not t.app(a0.args[0], (t.addc(p, i),), 0, 255):
                    break
            else:
                return Buf(a0.args[0][3:], None).load(kind, p)
    if all(not b.m for b in bs):
        import struct
        raw = bytes(b.c for b in bs)
        if kind[0] == 'f':
            v = struct.unpack('<' + {4: 'f', 8: 'd', 2: 'e'}[size], raw)[0]
            return toF(v)
    return define_load(kind, size, bs)


def seglen(s):
    if s[0] == 'b':
        return s[3]
    if s[0] in 'or':
        return s[2]
    return t.const(len(s[1]))


def segbyte(s, i):
    if s[0] == 'b':
        return s[1].u8(t.add(s[2], i))
    if s[0] == 'r':
        return t.const(s[1])
    if s[0] == 'o':
        return t.app('byteof', (t.fterm('tok', s[1]), i), 0, 255)
    if not i.m:
        v = s[1][i.c]
        return t.const(v) if isinstance(v, int) else v
    k = eng()
    for q in range(len(s[1])):
        if q == len(s[1]) - 1 or k.decide(t.eq(i, t.const(q))):
            v = s[1][q]
            return t.const(v) if isinstance(v, int) else v
    raise Unsupported('byte of empty constant')


def segslice(s, a, b):
    if s[0] == 'b':
        return ('b', s[1], t.add(s[2], a), t.sub(b, a))
    if s[0] == 'r':
        return ('r', s[1], t.sub(b, a))
    if s[0] == 'o':
        if a is t.ZERO and b is s[2]:
            return s
        return ('o', ('slice', s[1], a, b), t.sub(b, a))
    if a.m or b.m:
        e = eng()
        # enumerate
        n = len(s[1])
        def conc(x):
            for q in range(n + 1):
                if q == n or e.decide(t.eq(x, t.const(q))):
                    return q
        return (s[0], s[1][conc(a):conc(b)])
    return (s[0], s[1][a.c:b.c])


def as_sbytes(x):
    if isinstance(x, SBytes):
        return x
    if isinstance(x, (bytes, bytearray, memoryview)):
        return SBytes([('c', bytes(x))])
    if isinstance(x, SByteArray):
        return x.value
    return None


def norm_bytes(x):
    if not x.segs:
        return b''
    if len(x.segs) == 1 and x.segs[0][0] == 'c':
        return x.segs[0][1]
    return x


def bytes_eq(a, b):
    """B: equality of two SBytes"""
    la, lb = a.tlen(), b.tlen()
    if a.segs == b.segs:
        return t.TRUE
    if not a.segs or not b.segs:
        return t.eq(la, lb)
    if len(a.segs) == 1 and len(b.segs) == 1 and a.segs[0][0] == 'b' and b.segs[0][0] == 'b' \
            and a.segs[0][1] is b.segs[0][1]:
        e = eng()
        le_ = t.eq(la, lb)
        if e.quick(le_) is True or e.side == 'cmp':
            same = t.eq(a.segs[0][2], b.segs[0][2])
            if same is t.TRUE or e.side == 'cmp':
                return t.band(le_, t.bor(t.eq0(la), same))
    # constant on one side
    for x, y in ((a, b), (b, a)):
        if len(x.segs) == 1 and x.segs[0][0] == 'c':
            n = len(x.segs[0][1])
            ly = y.tlen()
            e = eng()
            if e.quick(t.eq(ly, t.const(n))) is not True:
                if not e.decide(t.eq(ly, t.const(n))):
                    return t.FALSE
            return t.band(*[t.eq(y.byte(t.const(i)), t.const(x.segs[0][1][i])) for i in range(n)])
    if not la.m and not lb.m:
        if la.c != lb.c:
            return t.FALSE
        if la.c <= 64:
            return t.band(*[t.eq(a.byte(t.const(i)), b.byte(t.const(i))) for i in range(la.c)])
    if len(a.segs) == 1 and len(b.segs) == 1:
        e = eng()
        if e.side != 'cmp':
            raise Unsupported('comparison of byte strings of unknown length')
        # an obligation: the bytes at any place
        e.uid += 1
        q = t.var('q!%d' % e.uid, 0, None)
        return t.band(t.eq(la, lb), t.implies(t.lt(q, la), t.eq(a.byte(q), b.byte(q))))
    if len(a.segs) == len(b.segs):
        return t.band(t.eq(la, lb), *[bytes_eq(SBytes([x]), SBytes([y])) if x != y else t.TRUE
                                      for x, y in zip(a.segs, b.segs)])
    raise Unsupported('comparison of composite byte strings')


class SStr:
    """text decoded from bytes (opaque except for the bytes it came from)"""
    __slots__ = ('raw', 'enc', 'errors')
    __hash__ = None

    def __init__(self, raw, enc, errors='strict'):
        self.raw = raw
        self.enc = enc
        self.errors = errors

    def __symlen__(self):
        if self.enc in ('ascii', 'us-ascii', 'latin-1', 'latin1'):
            return self.raw.__symlen__()
        if eng().entails(t.le(self.raw.tlen(), t.ZERO)):
            return 0
        r = self.raw.segs
        key = []
        for s in r:
            if s[0] == 'b':
                key += [s[1].name, s[2], s[3]]
            else:
                key.append(repr(s))
        n = self.raw.tlen()
        v = t.app('strlen', tuple(key), 0, None)
        eng().assume(t.le(v, n))
        return mkint(v)

    def __eq__(self, o):
        if isinstance(o, str):
            try:
                return self.raw == o.encode(self.enc)
            except UnicodeError:
                return False
        if isinstance(o, SStr):
            if o.enc != self.enc:
                raise Unsupported('comparison of differently decoded strings')
            return self.raw == o.raw
        return False

    def __ne__(self, o):
        return s_not(self.__eq__(o))

    def encode(self, enc='utf-8', errors='strict'):
        if enc.lower() != self.enc:
            raise Unsupported('re-encoding')
        return self.raw

    def __format__(self, s):
        return '<symstr>'

    def __str__(self):
        return '<symstr>'

    def __repr__(self):
        return 'SStr(%r,%s)' % (self.raw, self.enc)

    def __contains__(self, x):
        raise Unsupported('substring test')

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('str.%s' % k)


# ================================================================ mutable objects
class Heap:
    """mutable engine object: scalar slots plus an append-only log"""
    def _register(self):
        object.__setattr__(self, '_log', [])
        h = eng().heap
        object.__setattr__(self, '_hid', len(h))
        h.append(self)

    def _slots(self):
        return {}

    def _setslot(self, k, v):
        raise NotImplementedError

    def _trunc(self, n):
        del self._log[n:]


class LoopNode:
    """summary of a loop's effect on one container"""
    __slots__ = ('j', 'N', 'paths', 'uid')

    def __init__(self, j, N, paths, uid):
        self.j = j
        self.N = N
        self.paths = paths       # [(conds [B], events [...])]
        self.uid = uid

    def __repr__(self):
        return 'Loop(%r<%r: %r)' % (self.j, self.N, self.paths)


class SByteArray(Heap):
    __hash__ = None

    def __init__(self, val=b''):
        self._register()
        if not isinstance(val, int) and not isinstance(val, SymInt):
            v = as_sbytes(val)
            if v is None:
                if isinstance(val, SList):
                    v = SBytes([('t', [toT(x) for x in val])])
                else:
                    v = SBytes([('t', [toT(x) for x in list(val)])])
            if v.segs:
                self._log.append(('ext', v))
        else:
            n = toT(val)
            if n.m:
                raise Unsupported('bytearray of symbolic size')
            if n.c:
                self._log.append(('ext', SBytes([('c', bytes(n.c))])))

    @property
    def value(self):
        segs = ()
        if eng().loop_stack:
            eng().note_read(self)
        for ev in self._log:
            if ev[0] != 'ext':
                raise Unsupported('bytes built in a loop')
            segs += ev[1].segs
        return SBytes(segs)

    def flat(self):
        return all(ev[0] == 'ext' for ev in self._log)

    def __iadd__(self, o):
        b = as_sbytes(o)
        if b is None:
            raise TypeError("can't concat")
        if b.segs:
            self._log.append(('ext', b))
        return self

    def extend(self, o):
        self.__iadd__(o)

    def append(self, x):
        self._log.append(('ext', SBytes([('t', [toT(x)])])))

    def __getitem__(self, i):
        return self.value[i]

    def __setitem__(self, i, v):
        cur = self.value
        b = as_sbytes(v)
        if isinstance(i, slice) and b is not None:
            n = cur.tlen()
            if i.step is not None:
                raise Unsupported('stepped slice assignment')
            a = cur.clip(i.start, t.ZERO)
            z = cur.clip(i.stop, n)
            new = SBytes(cur.slice(t.ZERO, a).segs + b.segs + cur.slice(z, n).segs)
            if not eng().can_mutate(self):
                raise Unsupported('bytearray slice assignment in loop')
            self._log[:] = [('ext', new)]
            return
        raise Unsupported('bytearray item assignment')

    def __symlen__(self):
        return self.value.__symlen__()

    def __len__(self):
        return len(self.value)

    def __add__(self, o):
        return SByteArray(self.value + o)

    def __eq__(self, o):
        return self.value == o

    def __ne__(self, o):
        return s_not(self == o)

    def __bool__(self):
        return bool(self.value)

    def decode(self, *a):
        return self.value.decode(*a)

    def __iter__(self):
        return iter(self.value)

    def __format__(self, s):
        return '<symbytes>'


class SList(Heap):
    __hash__ = None

    def __init__(self, items=()):
        self._register()
        for x in items:
            self._log.append(('item', x))

    # native view
    def native(self):
        out = []
        if eng().loop_stack:
            eng().note_read(self)
        for ev in self._log:
            if ev[0] != 'item':
                raise Unsupported('list built in a symbolic loop used natively')
            out.append(ev[1])
        return out

    def is_native(self):
        if eng().loop_stack:
            eng().note_read(self)
        return all(ev[0] == 'item' for ev in self._log)

    def append(self, x):
        self._log.append(('item', x))

    def extend(self, xs):
        if isinstance(xs, SList):
            if eng().loop_stack:
                eng().note_read(xs)
            self._log.extend(xs._log)
            return
        from . import loops
        loops.for_(xs, lambda x: self._log.append(('item', x)), None)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        r = self.copy()
        r.extend(o)
        return r

    def insert(self, i, x):
        raise Unsupported('list.insert')

    def pop(self, i=-1):
        n = self.native()
        v = n.pop(i)
        if not eng().can_mutate(self):
            raise Unsupported('list.pop in loop')
        self._log[:] = [('item', x) for x in n]
        return v

    def __mul__(self, k):
        if isinstance(k, int):
            return SList(self.native() * k)
        raise Unsupported('list repetition')

    def single_loop(self):
        """(LoopNode) when the list is exactly one loop that appends one item per iteration"""
        if eng().loop_stack:
            eng().note_read(self)
        if len(self._log) == 1 and self._log[0][0] == 'loop':
            ln = self._log[0][1]
            if all(len(evs) == 1 and evs[0][0] == 'item' for _, evs in ln.paths):
                return ln
        return None

    def tlen(self):
        n = t.ZERO
        if eng().loop_stack:
            eng().note_read(self)
        for ev in self._log:
            if ev[0] == 'item':
                n = t.addc(n, 1)
            else:
                ln = ev[1]
                if all(len(e) == 1 and e[0][0] == 'item' for _, e in ln.paths):
                    n = t.add(n, ln.N)
                else:
                    raise Unsupported('length of irregular list')
        return n

    def __symlen__(self):
        return mkint(self.tlen())

    def __len__(self):
        return len(self.native())

    def __bool__(self):
        return bool(mkbool(t.bnot(t.eq0(self.tlen()))))

    def at(self, i):
        """element at T index i, in range"""
        if self.is_native():
            n = self.native()
            if not i.m:
                return n[i.c]
            e = eng()
            for q in range(len(n)):
                if q == len(n) - 1 or e.decide(t.eq(i, t.const(q))):
                    return n[q]
        e = eng()
        off = t.ZERO
        log = self._log
        if not log and e.solve([], 2, timeout=8000, all_pc=True)[0] == 'unsat':
            raise core.PathAbort()      # no index is in range
        for q, ev in enumerate(log):
            last = q == len(log) - 1
            if ev[0] == 'item':
                if last or e.decide(t.eq(i, off)):
                    return ev[1]
                off = t.addc(off, 1)
                continue
            ln = ev[1]
            if any(len(evs) != 1 or evs[0][0] != 'item' for _, evs in ln.paths):
                raise Unsupported('element of irregular list')
            end = t.add(off, ln.N)
            if last or e.decide(t.lt(i, end)):
                mp = {ln.j: t.sub(i, off)}
                for k, (conds, evs) in enumerate(ln.paths):
                    c = t.subst(t.band(*conds), mp)
                    if k == len(ln.paths) - 1:
                        e._assume(c)          # every completed iteration took one of the paths
                        return vsubst(evs[0][1], mp)
                    if e.decide(c):
                        return vsubst(evs[0][1], mp)
            off = end
        raise Unsupported('element')

    def __getitem__(self, i):
        if isinstance(i, slice):
            r = self.native()[i]
            return SList(r)
        v = toT(i)
        if v is None:
            raise TypeError('list indices must be integers or slices')
        e = eng()
        n = self.tlen()
        if not e.decide(t.le(t.ZERO, v)):
            v = t.add(v, n)
            if not e.decide(t.le(t.ZERO, v)):
                raise IndexError('list index out of range')
        if not e.decide(t.lt(v, n)):
            raise IndexError('list index out of range')
        return self.at(v)

    def __setitem__(self, i, v):
        n = self.native()
        if not eng().can_mutate(self):
            raise Unsupported('list item assignment in loop')
        n[i] = v
        self._log[:] = [('item', x) for x in n]

    def __iter__(self):
        return iter(self.native())

    def __symiter__(self):
        if self.is_native():
            return None
        ln = self.single_loop()
        if ln is None:
            raise Unsupported('iteration over irregular list')
        return ln.N, self.at

    def __contains__(self, x):
        raise Unsupported('native containment')

    def __eq__(self, o):
        if isinstance(o, SList):
            o = o.native()
        return self.native() == o

    def __format__(self, s):
        return '<symlist>'

    def __repr__(self):
        return 'SList%r' % (self._log,)

    def sort(self, *a, **k):
        raise Unsupported('list.sort')

    def index(self, x):
        return self.native().index(x)

    def copy(self):
        if eng().loop_stack:
            eng().note_read(self)
        r = SList()
        r._log.extend(self._log)
        return r


_MISSING = object()


class LazySub:
    """the dictionary found under a string key, made by an earlier iteration"""
    def __init__(self, d, k):
        self.d, self.k = d, k

    def __setitem__(self, k, v):
        self.d._log.append(('sub', self.k, k, v))

    def __getattr__(self, k):
        raise Unsupported('use of an inner dictionary in a loop')

    def __iter__(self):
        raise Unsupported('use of an inner dictionary in a loop')
    __getitem__ = __symcontains__ = __contains__ = __bool__ = __len__ = __iter__


class SDict(Heap):
    __hash__ = None

    def __init__(self, *a, **kw):
        self._register()
        self.default_factory = None
        if a:
            self.update(a[0])
        for k, v in kw.items():
            self[k] = v

    def _slots(self):
        return {}

    def __setitem__(self, k, v):
        self._log.append(('set', k, v))

    def set_default(self, f):
        self.default_factory = f

    def key_eq(self, a, b):
        """B"""
        if a is b:
            return t.TRUE
        ta, tb = toT(a), toT(b)
        if ta is not None and tb is not None:
            return t.eq(ta, tb)
        if ta is not None or tb is not None:
            return t.FALSE
        ba, bb = as_sbytes(a), as_sbytes(b)
        if ba is not None and bb is not None:
            r = ba == bb
            return toB(r)
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            r = (a == b)
            return toB(r)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return t.FALSE
            return t.band(*[self.key_eq(x, y) for x, y in zip(a, b)])
        r = a == b
        return toB(r) if isinstance(r, (bool, SymBool)) else t.FALSE

    def lookup(self, k):
        e = eng()
        for pos in range(len(self._log) - 1, -1, -1):
            ev = self._log[pos]
            if e.loop_stack:
                e.note_read(self, k, pos)
            if ev[0] == 'set':
                if e.decide(self.key_eq(ev[1], k)):
                    return ev[2]
            elif ev[0] == 'del':
                if e.decide(self.key_eq(ev[1], k)):
                    return _MISSING
            elif ev[0] == 'sub':
                if ev[1] == k:
                    return LazySub(self, k)
            else:
                if isinstance(k, str) and loop_sets_no_str(ev[1]):
                    continue
                raise Unsupported('lookup in dictionary filled by a symbolic loop')
        if e.loop_stack:
            e.note_read(self, k)
            st = e.loop_stack[-1]
            nm = st.lazy.get((getattr(self, '_hid', None), k)) if st.lazy and isinstance(k, str) else None
            if nm is not None and e.decide(t.bapp(nm, (st.j,))):
                return LazySub(self, k)
        return _MISSING

    def __getitem__(self, k):
        v = self.lookup(k)
        if v is _MISSING:
            if self.default_factory is not None:
                v = self.default_factory()
                self[k] = v
                return v
            raise KeyError(k)
        return v

    def get(self, k, d=None):
        v = self.lookup(k)
        return d if v is _MISSING else v

    def setdefault(self, k, d=None):
        v = self.lookup(k)
        if v is _MISSING:
            self[k] = d
            return d
        return v

    def pop(self, k, *d):
        v = self.lookup(k)
        if v is _MISSING:
            if d:
                return d[0]
            raise KeyError(k)
        self._log.append(('del', k))
        return v

    def sub(self, k, k2, v):
        """setdefault(k, {})[k2] = v"""
        self._log.append(('sub', k, k2, v))

    def __delitem__(self, k):
        if self.lookup(k) is _MISSING:
            raise KeyError(k)
        self._log.append(('del', k))

    def __symcontains__(self, k):
        return self.lookup(k) is not _MISSING

    __contains__ = __symcontains__

    def update(self, other=None, **kw):
        if other is not None:
            if isinstance(other, SDict):
                self._log.extend(other.entries_log())
            elif isinstance(other, dict):
                for k, v in other.items():
                    self[k] = v
            else:
                from . import loops
                loops.for_(other, lambda kv: self._log.append(('set',) + tuple(pair(kv))), None)
        for k, v in kw.items():
            self[k] = v

    def entries_log(self):
        if eng().loop_stack:
            eng().note_read(self)
        return [ev for ev in self._log]

    def concrete(self):
        """ordered [(k, v)] when there are no symbolic loops (later sets win)"""
        out = []
        if eng().loop_stack:
            eng().note_read(self)
        for ev in self._log:
            if ev[0] == 'loop':
                raise Unsupported('dictionary filled by a symbolic loop used natively')
            if ev[0] == 'set':
                for i, (k, v) in enumerate(out):
                    if eng().decide(self.key_eq(k, ev[1])):
                        out[i] = (k, ev[2])
                        break
                else:
                    out.append((ev[1], ev[2]))
            elif ev[0] == 'sub':
                for i, (k, v) in enumerate(out):
                    if k == ev[1]:
                        out[i] = (k, v.copy())
                        break
                else:
                    i = len(out)
                    out.append((ev[1], SDict()))
                out[i][1][ev[2]] = ev[3]
            else:
                out = [(k, v) for k, v in out if not eng().decide(self.key_eq(k, ev[1]))]
        return out

    def is_native(self):
        return all(ev[0] != 'loop' for ev in self._log)

    def items(self):
        return [(k, v) for k, v in self.concrete()]

    def keys(self):
        if not self.is_native():
            from . import opaque
            return opaque.Keys(self)
        return [k for k, v in self.concrete()]

    def values(self):
        return [v for k, v in self.concrete()]

    def __iter__(self):
        return iter(self.keys())

    def __symlen__(self):
        return len(self.concrete())

    def __len__(self):
        return len(self.concrete())

    def __bool__(self):
        return bool(self.concrete())

    def copy(self):
        if eng().loop_stack:
            eng().note_read(self)
        r = SDict()
        r._log.extend(self._log)
        return r

    __copy__ = copy

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __eq__(self, o):
        raise Unsupported('dict comparison')

    def __format__(self, s):
        return '<symdict>'

    def __repr__(self):
        return 'SDict%r' % (self._log,)


def pair(kv):
    if isinstance(kv, (tuple, list)):
        return kv[0], kv[1]
    if isinstance(kv, SList):
        n = kv.native()
        return n[0], n[1]
    raise Unsupported('pair')


def loop_sets_no_str(ln):
    for _, evs in ln.paths:
        for ev in evs:
            if ev[0] == 'loop':
                if not loop_sets_no_str(ev[1]):
                    return False
            elif ev[0] in ('set', 'del', 'sub') and isinstance(ev[1], (str, SStr)):
                return False
    return True


# ================================================================ substitution
def vsubst(v, mp):
    """substitute loop variables in any value"""
    if isinstance(v, (SymInt, SymFloat)) and hasattr(v, 'dt'):
        from . import arrays
        return arrays.scalar(t.subst(v.t if isinstance(v, SymInt) else v.f, mp), v.dt)
    if isinstance(v, (t.T, t.B, t.F)):
        return t.subst(v, mp)
    if isinstance(v, SymInt):
        return mkint(t.subst(v.t, mp))
    if isinstance(v, SymBool):
        return mkbool(t.subst(v.b, mp))
    if isinstance(v, SymFloat):
        return SymFloat(t.subst(v.f, mp))
    if isinstance(v, (int, float, str, bytes, type(None), bool)):
        return v
    if isinstance(v, tuple):
        r = [vsubst(x, mp) for x in v]
        return type(v)(*r) if hasattr(v, '_fields') else tuple(r)
    if isinstance(v, SBytes):
        return SBytes([seg_subst(s, mp) for s in v.segs])
    if isinstance(v, SStr):
        return SStr(vsubst(v.raw, mp), v.enc, v.errors)
    if isinstance(v, LoopNode):
        return LoopNode(v.j, t.subst(v.N, mp), [([t.subst(c, mp) for c in cs], [ev_subst(e, mp) for e in evs])
                                               for cs, evs in v.paths], v.uid)
    if isinstance(v, (SList, SDict, SByteArray)):
        cls = type(v)
        r = cls.__new__(cls)
        object.__setattr__(r, '_log', [ev_subst(e, mp) for e in v._log])
        if cls is SDict:
            r.default_factory = v.default_factory
        return r
    f = getattr(type(v), '_vsubst', None)
    if f is not None:
        return f(v, mp)
    return v


def seg_subst(s, mp):
    if s[0] == 'b':
        return ('b', s[1], t.subst(s[2], mp), t.subst(s[3], mp))
    if s[0] == 't':
        return ('t', [t.subst(x, mp) if isinstance(x, T) else x for x in s[1]])
    if s[0] in 'or':
        return (s[0], s[1], t.subst(s[2], mp))
    return s


def ev_subst(ev, mp):
    return (ev[0],) + tuple(vsubst(x, mp) if not isinstance(x, (T,)) else t.subst(x, mp) for x in ev[1:])


def freeze(v, seen=None):
    """copy of a mutable value as it is now"""
    if isinstance(v, (SList, SDict, SByteArray)):
        cls = type(v)
        r = cls.__new__(cls)
        object.__setattr__(r, '_log', [tuple(freeze(x) for x in ev) for ev in v._log])
        if cls is SDict:
            r.default_factory = v.default_factory
        return r
    if isinstance(v, tuple):
        r = [freeze(x) for x in v]
        return type(v)(*r) if hasattr(v, '_fields') else tuple(r)
    f = getattr(type(v), '_freeze', None)
    if f is not None:
        return f(v)
    return v
