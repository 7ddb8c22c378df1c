"""Symbolic execution of the specification functions: the reader over an unknown byte string, and X."""
import os
import numpy as np
from . import terms as t
from . import core, defs, arrays, loops
from . import values as V
from .core import Unsupported, SpecUndefined, SpecRaise, LoopRec, eng
from .values import (SymInt, SymBool, SymFloat, SBytes, SStr, SList, SDict, SByteArray, Heap, Buf, toT, mkint, mkbool,
                     toB, s_not, norm_bytes)
from .arrays import SArr, IX, MaskSel
from .shims import Tok

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs', 'blocks.py')


class SymReader(Heap):
    __hash__ = None

    def __init__(self, buf, start, end):
        self._register()
        self.buf = buf
        self.pos = mkint(start)
        self.end = end

    def _slots(self):
        return {'pos': self.pos}

    def _setslot(self, k, v):
        object.__setattr__(self, k, v)

    # ---------------------------------------------- preconditions
    def need(self, c):
        if isinstance(c, SymBool):
            eng().assume(c.b)
        elif not c:
            raise SpecUndefined()

    def need_le(self, a, b):
        eng().assume(t.le(toT(a), toT(b)))

    def supported(self, c):
        if not c:
            raise SpecRaise('NotImplementedError')

    def refuse(self, ok, kind):
        if not ok:
            raise SpecRaise(kind)

    def at_end(self):
        eng().assume(t.eq(toT(self.pos), self.end))

    def fill(self, name, v):
        pass

    # ---------------------------------------------- raw
    def take(self, n):
        """advance by n (T, known non-negative) bytes; start position"""
        if isinstance(self.pos, V.Poison):
            self.pos._die()
        p = toT(self.pos)
        q = t.add(p, n)
        eng().assume(t.le(q, self.end))
        self.pos = mkint(q)
        return p

    def bytes(self, n):
        n = toT(n)
        eng().assume(t.le(t.ZERO, n))
        p = self.take(n)
        return SBytes([('b', self.buf, p, n)])

    def rest(self, n=0):
        p = toT(self.pos)
        eng().assume(t.le(t.addc(p, n), self.end))
        self.pos = mkint(self.end)
        return SBytes([('b', self.buf, p, t.sub(self.end, p))])

    def _num(self, kind, size):
        p = self.take(t.const(size))
        v = self.buf.load(kind, p)
        if isinstance(v, t.T):
            return mkint(v)
        return SymFloat(v)

    def u8(self, g=None): return self._num('u1', 1)
    def i16(self, g=None): return self._num('i2', 2)
    def u16(self, g=None): return self._num('u2', 2)
    def i32(self, g=None): return self._num('i4', 4)
    def u32(self, g=None): return self._num('u4', 4)
    def f32(self, g=None): return self._num('f4', 4)
    def f64(self, g=None): return self._num('f8', 8)

    def time(self):
        return (self.i32(), self.i32())

    def count(self, kind, **kw):
        v = self._num(kind, int(kind[1]))
        eng().assume(t.le(t.ZERO, toT(v)))
        return v

    def deferred_count(self, kind, name):
        return self.count(kind)

    def uvarint(self, g=None):
        p = toT(self.pos)
        self.take(defs.vl(self.buf.name, p))
        return mkint(defs.vu(self.buf.name, p))

    def varint(self, g=None):
        p = toT(self.pos)
        self.take(defs.vl(self.buf.name, p))
        return mkint(defs.vs(self.buf.name, p))

    def vcount(self, **kw):
        v = self.varint()
        eng().assume(t.le(t.ZERO, toT(v)))
        return v

    def uvcount(self, **kw):
        return self.uvarint()

    # ---------------------------------------------- arrays
    def arr(self, dt, n, g=None):
        return self._arr(dt, (toT(n),))

    def arr2(self, dt, n, m, g=None):
        return self._arr(dt, (toT(n), toT(m)))

    def _arr(self, dt, shape):
        d = np.dtype('?' if dt == 'b1' else dt)
        e = eng()
        k = t.ONE
        for s in shape:
            e.assume(t.le(t.ZERO, s))
            k = t.mul(k, s)
        p = self.take(t.scale(k, d.itemsize))
        lin = t.ZERO
        for i, s in enumerate(shape):
            lin = t.add(t.mul(lin, s), IX[i])
        el = self.buf.load(dt, t.add(p, t.scale(lin, d.itemsize)))
        if dt == 'b1':
            el = t.bnot(t.eq0(el))
        return SArr(d, shape, el)

    def _var(self, n, shape, fn, dt):
        e = eng()
        P = self.buf.name
        p = toT(self.pos)
        # a varint takes at least one byte, so the payload bounds the count
        e.assume(t.le(t.add(p, n), self.end))
        q = defs.pv(P, p, n)
        e.assume(t.le(q, self.end))
        self.pos = mkint(q)
        lin = t.ZERO
        for i, s in enumerate(shape):
            lin = t.add(t.mul(lin, s), IX[i])
        return SArr(np.dtype(dt), shape, fn(P, defs.pv(P, p, lin)))

    def uvarints(self, n, bits=64, g=None):
        n = toT(n)
        a = self._var(n, (n,), defs.vu, 'u8')
        if bits < 64:
            e = eng()
            e.uid += 1
            j = t.var('u!%d' % e.uid, 0, None)
            rec = LoopRec('spec', j.m[0][0], n, list(e.loop_vars))
            rec.facts.append(t.lt(t.subst(a.el, {arrays.IXA[0]: j}), t.const(1 << bits)))
            e.recs.append(rec)
            el = a.el
            a = SArr(a.dt, a.shape_, el)
        return a

    def varints(self, n, g=None):
        n = toT(n)
        eng().assume(t.le(t.ZERO, n))
        return self._var(n, (n,), defs.vs, 'i8')

    def varints2(self, n, m, g=None):
        n, m = toT(n), toT(m)
        e = eng()
        e.assume(t.le(t.ZERO, n))
        e.assume(t.le(t.ZERO, m))
        e.assume(t.lt(t.add(n, m), t.const(1 << 30)))
        return self._var(t.mul(n, m), (n, m), defs.vs, 'i8')

    def string(self):
        return self.bytes(self.count('i2'))

    def vstring(self):
        return self.bytes(self.uvcount())

    def ascii(self, choices):
        b = self.bytes(1)
        eng().assume(t.lt(b.byte(t.ZERO), t.const(128)))
        return SStr(b, 'ascii')

    def utf8(self):
        return SStr(self.string(), 'utf-8')

    def table(self, fields, n, g=None):
        dt = arrays.mkdtype([(k, '?' if d == 'b1' else d) for k, d in fields])
        n = toT(n)
        e = eng()
        e.assume(t.le(t.ZERO, n))
        p = self.take(t.mul(n, dt.size))
        raw = SBytes([('b', self.buf, p, t.mul(n, dt.size))])
        if not raw.segs:
            raw = b''
        a = arrays.frombuffer(raw, dt, mkint(n))
        return {k: SArr(a.dt.field(k)[1], a.shape_, a.el[k]) for k, _ in fields}

    def diff(self, n, m):
        e = eng()
        P = self.buf.name
        n, m = toT(n), toT(m)
        for x in (n, m):
            e.assume(t.le(t.ZERO, x))
            e.assume(t.lt(x, t.const(1 << 40)))
        p = toT(self.pos)
        k = t.mul(n, m)
        e.assume(t.le(t.add(p, k), self.end))
        q = defs.pv(P, p, k, 'PD@')
        e.assume(t.le(q, self.end))
        self.pos = mkint(q)
        el = defs.de(P, p, m, IX[0], IX[1])
        return SArr(np.dtype('u4'), (n, m), el)

    def subobject(self, etype):
        e = eng()
        p = self.take(t.const(12))
        w = self.buf.load('u4', p)
        e.assume(t.eq(t.mod(w, 1 << 16), t.const(etype)))
        ln = t.mod(self.buf.load('u4', t.addc(p, 8)), 1 << 30)
        if e.decide(t.eq(t.mod(t.div(w, 1 << 17), 2), t.ONE)):
            q = self.take(t.const(4))
            ln = t.add(ln, t.scale(t.mod(self.buf.load('u4', q), 1 << 12), 1 << 30))
        s = self.take(ln)
        return SymReader(self.buf, s, t.add(s, ln))


# ---------------------------------------------------------------- X
class AnyDt:
    def __init__(self, a):
        self.a = a

    def _vsubst(self, mp):
        return AnyDt(V.vsubst(self.a, mp))

    def _freeze(self):
        return AnyDt(V.freeze(self.a))


class Rec:
    def __init__(self, cols):
        self.cols = cols


class Select:
    def __init__(self, cols, mask, keep):
        self.cols, self.mask, self.keep = cols, mask, keep


F4 = np.dtype('f4')


def f32(x):
    if isinstance(x, SymFloat):
        return x.f
    return arrays.pyscalar_el(x, F4)


def nf(f):
    return arrays.NpFloat(f, F4)


class X:
    @staticmethod
    def small(n):
        return 1

    @staticmethod
    def full(dt, shape, v):
        return arrays.full(tuple(shape), v, np.dtype('?' if dt == 'b1' else dt))

    @staticmethod
    def lam(dt, shape, fn):
        e = eng()
        sh = tuple(toT(s) for s in shape)
        dt = np.dtype('?' if dt == 'b1' else dt)
        for s in sh:
            e.assume(t.le(t.ZERO, s))
        mk = e.mark()
        sv, e.collect = e.collect, None
        pos = 0 if e.ctx is None else len(e.ctx.trace)
        try:
            for k, s in enumerate(sh):
                e._assume(t.lt(IX[k], s))
            el = arrays.pyscalar_el(fn(*[mkint(IX[k]) for k in range(len(sh))]), dt)
        except core.PathAbort:
            el = arrays.pyscalar_el(0, dt)
        finally:
            e.undo(mk)
            e.collect = sv
        if e.ctx is not None and len(e.ctx.trace) != pos:
            raise Unsupported('branch in a specification array')
        return SArr(dt, sh, el)

    anydt = AnyDt

    @staticmethod
    def squeeze_last(a):
        if eng().decide(t.eq(a.shape_[-1], t.ONE)):
            return a.squeeze(axis=-1)
        return a

    @staticmethod
    def reshape3(a, *shape):
        return a.reshape(tuple(shape))

    @staticmethod
    def cast(dt, a):
        return a.astype(np.dtype(dt))

    @staticmethod
    def hexstr(i):
        return Tok('hex', toT(i))

    @staticmethod
    def fmul32(a, b):
        return nf(arrays.fop('mul', f32(a), f32(b), F4))

    @staticmethod
    def fdiv32(a, b):
        return nf(arrays.fop('div', f32(a), f32(b), F4))

    @staticmethod
    def fpow32(a, b):
        return nf(arrays.fop('pow', f32(a), f32(b), F4))

    @staticmethod
    def fclip32(a, lo, hi):
        return nf(t.fterm('clip32', f32(a), f32(lo), f32(hi)))

    @staticmethod
    def feq(a, b):
        return mkbool(arrays.cmp_el('eq', f32(a), f32(b), F4))

    @staticmethod
    def i2f32(i):
        return nf(arrays.i2f(toT(i), 32))

    @staticmethod
    def c32(v):
        return V.wrap(v, 32, True)

    @staticmethod
    def all_zero(a):
        return s_not(arrays.np_any(a))

    @staticmethod
    def any_true(a):
        return arrays.np_any(a)

    @staticmethod
    def record(*cols):
        return Rec(list(cols))

    @staticmethod
    def select(cols, mask, keep):
        cols = cols.native() if isinstance(cols, SList) else cols
        return Select(list(cols), mask, keep)

    @staticmethod
    def column(a, k, n):
        return a[:, k]

    @staticmethod
    def padded(b, n):
        k = toT(n).c - b.tlen().c
        return norm_bytes(SBytes(tuple(b.segs) + (('c', bytes(k)),)))

    @staticmethod
    def joined(lines, sep):
        out = SByteArray()

        def body(x):
            out.extend(x)
            out.extend(sep)
        loops.for_(lines, body)
        return out

    @staticmethod
    def bytelen(s):
        return mkint(s.raw.tlen())

    @staticmethod
    def adc_items(n):
        return ()

    @staticmethod
    def ext(name, data, *args):
        return Tok(name, data, *args)


class Hdr:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def load(loader):
    """specification module executed symbolically"""
    return loader.exec_source(SPEC, 'specs.blocks_sym', X=X)
