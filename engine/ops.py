"""Runtime helpers called by the rewritten source (`_L__`)."""
import numpy as np
from . import terms as t
from . import core, loops, arrays
from . import values as V
from .core import Unsupported, eng
from .values import (SymInt, SymBool, SymFloat, SBytes, SStr, SList, SDict, SByteArray, Poison, toT, mkint, mkbool,
                     toB, as_sbytes, s_not)
from .loops import for_, while_, comp, BREAK, SKIP, Ret, Flat
from .arrays import SArr, SRec


class TypeProxy:
    """stands for a builtin type in the rewritten code"""
    def __init__(self, native, fn):
        self._native = native
        self._fn = fn
        self.__name__ = native.__name__

    def __call__(self, *a, **k):
        return self._fn(*a, **k)

    def __mro_entries__(self, bases):
        return (self._native,)

    def __getattr__(self, k):
        return getattr(self._native, k)

    def __eq__(self, o):
        return self is o or self._native is o

    def __hash__(self):
        return hash(self._native)

    def __or__(self, o):
        return (self, o)

    def __class_getitem__(cls, k):
        return cls

    def __getitem__(self, k):
        return self


def nat(x):
    """builtin type behind a proxy"""
    return x._native if isinstance(x, TypeProxy) else x


class SSet:
    """finite set of possibly symbolic items"""
    def __init__(self, items):
        self.items = list(items)

    def __symcontains__(self, x):
        return seq_contains(self.items, x)

    def has(self, x):
        return bool(seq_contains(self.items, x))

    def distinct(self):
        out = []
        for x in self.items:
            if not bool(seq_contains(out, x)):
                out.append(x)
        return out

    # the order of iteration is one of the possible ones
    def __iter__(self):
        eng().approx = True
        return iter(self.distinct())

    def __symlen__(self):
        return len(self.distinct())

    def __bool__(self):
        return bool(self.items)

    def __sub__(self, o):
        return SSet([x for x in self.items if not bool(seq_contains(list(members(o)), x))])

    def __rsub__(self, o):
        return SSet([x for x in o if not self.has(x)])

    def __and__(self, o):
        return SSet([x for x in self.items if bool(seq_contains(list(members(o)), x))])
    __rand__ = intersection = __and__
    difference = __sub__

    def __or__(self, o):
        return SSet(self.items + list(members(o)))
    __ror__ = union = __or__

    def __le__(self, o):
        return not (self - o)
    issubset = __le__

    def __format__(self, s):
        return '<symset>'

    def add(self, x):
        raise Unsupported('update of a symbolic set')
    update = discard = remove = add


def members(o):
    return o.items if isinstance(o, SSet) else native_seq(o)


class Op:
    Ret = Ret
    BREAK = BREAK
    SKIP = SKIP
    for_ = staticmethod(for_)
    while_ = staticmethod(while_)
    comp = staticmethod(comp)

    @staticmethod
    def is_ret(r):
        return isinstance(r, Ret)

    @staticmethod
    def is_brk(r):
        return r is BREAK

    @staticmethod
    def ret(x):
        return Ret(x)

    @staticmethod
    def flat(x):
        return Flat(x)

    @staticmethod
    def unpack(x, n):
        if n is None or isinstance(x, (tuple, list)):
            return x
        if isinstance(x, SList):
            return tuple(x.native())
        return native_seq(x, n)

    @staticmethod
    def mklist(xs):
        return SList(xs)

    @staticmethod
    def genlist():
        return SList()

    @staticmethod
    def mkdict(pairs):
        d = SDict()
        d.update(pairs)
        return d

    @staticmethod
    def mkdict_items(items):
        d = SDict()
        for it in items:
            if len(it) == 2:
                d[it[0]] = it[1]
            else:
                d.update(it[0])
        return d

    @staticmethod
    def mkset(xs):
        xs = list(native_seq(xs))
        if any(is_sym(x) for x in xs):
            return SSet(xs)
        return set(xs)

    @staticmethod
    def contains(c, x):
        return contains(c, x)

    @staticmethod
    def not_contains(c, x):
        return s_not(contains(c, x))

    @staticmethod
    def star(x):
        return native_seq(x)

    @staticmethod
    def dstar(x):
        if isinstance(x, SDict):
            return dict(x.concrete())
        return x

    @staticmethod
    def mod(a, b):
        if isinstance(a, str):
            if deep_sym(b):
                return '<formatted>'
            return a % b
        if isinstance(a, bytes):
            raise Unsupported('bytes formatting') if deep_sym(b) else None
        return a % b

    @staticmethod
    def lshift(a, b):
        if isinstance(b, SymInt) and not isinstance(a, SArr):
            return V.i_shl(a, b)
        return a << b

    @staticmethod
    def mult(a, b):
        if isinstance(b, (str, bytes, SList, tuple)) and not isinstance(a, (str, bytes, SList, tuple)):
            a, b = b, a
        if isinstance(a, (str, bytes, SList, tuple)) and isinstance(b, SymInt):
            return repeat_seq(a, b)
        return a * b

    @staticmethod
    def power(a, b):
        if isinstance(b, SymInt) and isinstance(a, int) and a == 2:
            return V.i_shl(1, b)
        if isinstance(a, SymInt) and isinstance(b, int) and 0 <= b <= 4:
            r = 1
            for _ in range(b):
                r = a * r
            return r
        return a ** b

    @staticmethod
    def add(a, b):
        return a + b


def repeat_seq(a, n):
    if isinstance(a, str):
        if a == '':
            return ''
        return SymRepeatStr(a, toT(n))
    if isinstance(a, bytes) and len(set(a)) == 1:
        k = toT(n)
        if not eng().decide(t.le(t.ZERO, k)):
            return b''
        return V.norm_bytes(SBytes([('r', a[0], t.scale(k, len(a)))]))
    if isinstance(a, SList):
        out = SList()
        items = a.native()

        def body(_):
            for x in items:
                out.append(x)
        for_(loops.SymRange(t.ZERO, toT(n), 1), body)
        return out
    raise Unsupported('sequence repetition by symbolic count')


class SymRepeatStr:
    def __init__(self, s, n):
        self.s, self.n = s, n

    def __radd__(self, o):
        raise Unsupported('symbolic string')

    def __format__(self, spec):
        raise Unsupported('symbolic string')


def is_sym(x):
    return isinstance(x, (SymInt, SymBool, SymFloat, SBytes, SStr, SList, SDict, SByteArray, SArr, SRec))


def deep_sym(x, d=0):
    if is_sym(x):
        return True
    if d < 3:
        if isinstance(x, (tuple, list, set, frozenset)):
            return any(deep_sym(y, d + 1) for y in x)
        if isinstance(x, dict):
            return any(deep_sym(y, d + 1) or deep_sym(k, d + 1) for k, y in x.items())
    return False


def native_seq(x, n=None):
    if isinstance(x, (tuple, list)):
        return x
    if isinstance(x, SList):
        return x.native()
    f = getattr(x, '__symiter__', None)
    if f is not None:
        r = f()
        if r is not None:
            N, at = r
            if not N.m:
                return [at(t.const(i)) for i in range(max(N.c, 0))]
            if n is not None:
                if not eng().decide(t.eq(N, t.const(n))):
                    raise ValueError('not enough / too many values to unpack')
                return [at(t.const(i)) for i in range(n)]
            raise Unsupported('native sequence of symbolic length')
    if isinstance(x, SRec):
        return list(x)
    return list(x)


def val_eq(a, b):
    """B"""
    return SDict.key_eq(None, a, b)


def seq_contains(items, x):
    bs = [val_eq(y, x) for y in items]
    b = t.bor(*bs) if bs else t.FALSE
    if b is t.TRUE:
        return True
    if b is t.FALSE:
        return False
    return mkbool(b)


def contains(c, x):
    f = getattr(c, '__symcontains__', None)
    if f is not None:
        return f(x)
    if isinstance(c, SList):
        return seq_contains(c.native(), x)
    if isinstance(c, range):
        v = toT(x)
        if v is None or not v.m:
            return x in c
        if c.step != 1:
            return seq_contains(list(c), x)
        return mkbool(t.band(t.le(t.const(c.start), v), t.lt(v, t.const(c.stop))))
    if is_sym(x):
        if isinstance(c, (dict, tuple, list, set, frozenset)) or hasattr(c, 'keys'):
            return seq_contains(list(c), x)
        if isinstance(c, (bytes, str)):
            raw = getattr(x, 'raw', x)
            if isinstance(raw, SBytes) and eng().entails(t.eq(raw.tlen(), t.ONE)):
                return seq_contains([c[i:i + 1] for i in range(len(c))], x)
            raise Unsupported('substring test')
        return seq_contains(list(c), x)
    if isinstance(c, (tuple, list)) and any(is_sym(y) for y in c):
        return seq_contains(c, x)
    return x in c
