"""Contracts of the compiled (Cython) functions and of the base-class primitives, as used by callers.
Their own bodies are verified against these contracts separately (properties C01, C02, C03, C04, C24)."""
import types
import numpy as np
from . import terms as t
from . import core, defs, arrays
from .core import Unsupported, eng
from .values import (SymInt, SymBool, SBytes, SList, SDict, as_sbytes, toT, mkint, mkbool, toB, norm_bytes, Buf, wrap,
                     i_and, i_shl, mkint)
from .arrays import SArr, IX
from .shims import mkmodule

I64, U64, U32 = np.dtype('i8'), np.dtype('u8'), np.dtype('u4')


# ---------------------------------------------------------------- varints
def _at(data, offset):
    P, s, n = defs.single(data)
    off = defs.u64(offset)
    if not eng().decide(t.lt(off, n)):
        raise IndexError('Out of bounds on buffer access (axis 0)')
    return P, t.add(s, off), t.sub(n, off)


def unsigned_varint(data, offset=0):
    P, p, rem = _at(data, offset)
    ln = defs.vl(P, p)
    if not eng().decide(t.le(ln, rem)):
        raise EOFError('File seems to be truncated')
    return mkint(defs.vu(P, p)), mkint(ln)


def varint(data, offset=0):
    P, p, rem = _at(data, offset)
    ln = defs.vl(P, p)
    if not eng().decide(t.le(ln, rem)):
        raise EOFError('File seems to be truncated')
    return mkint(defs.vs(P, p)), mkint(ln)


def get_length_of_varint(b):
    x = toT(b)
    if not x.m:
        if not 0 <= x.c <= 255:
            raise OverflowError('value too large to convert to uint8_t')
        v = x.c
        return 1 if v < 128 else 9 - (v ^ 0xff).bit_length() if v != 255 else 9
    a = x.m[0][0] if x.c == 0 and len(x.m) == 1 and x.m[0][1] == 1 else None
    if a is not None and a.kind == 'app' and a.args[0].startswith('U8@'):
        return mkint(defs.vl(a.args[0][3:], a.args[1]))
    raise Unsupported('length of varint from a computed byte')


def parse_varint(data):
    P, p, n = defs.single(data)
    e = eng()
    if P is None or e.decide(t.eq0(n)):
        raise EOFError('Data seems to be truncated')
    if not e.decide(t.le(defs.vl(P, p), n)):
        raise EOFError('Data seems to be truncated')
    return mkint(defs.vu(P, p))


def _array(data, n, offset, fn, dt):
    P, s, ln = defs.single(data)
    n = defs.u64(n)
    off = defs.u64(offset)
    e = eng()
    if not e.decide(t.lt(n, t.const(1 << 60))):
        raise MemoryError()
    if n is t.ZERO or P is None:
        if not e.decide(t.eq0(n)):
            raise IndexError('Out of bounds on buffer access (axis 0)')
        return arrays.full(0, 0, dt), 0
    p = t.add(s, off)
    end = defs.pv(P, p, n)
    if not e.decide(t.bor(t.eq0(n), t.le(end, t.add(s, ln)))):
        raise IndexError('Out of bounds on buffer access (axis 0)')
    return SArr(dt, (n,), fn(P, defs.pv(P, p, IX[0]))), mkint(t.sub(end, p))


def varint_array(data, n_elements, offset=0):
    return _array(data, n_elements, offset, defs.vs, I64)


def unsigned_varint_array(data, n_elements, offset=0):
    return _array(data, n_elements, offset, defs.vu, U64)


def unsigned_varint_arrays_differential(data, n_arrays, n_elements, offset=0):
    P, s, ln = defs.single(data)
    n, m = defs.u64(n_arrays), defs.u64(n_elements)
    off = defs.u64(offset)
    e = eng()
    if not e.decide(t.band(t.lt(n, t.const(1 << 40)), t.lt(m, t.const(1 << 40)))):
        raise MemoryError()
    k = t.mul(n, m)
    if P is None:
        if not e.decide(t.eq0(k)):
            raise IndexError('Out of bounds on buffer access (axis 0)')
        return SArr(U32, (n, m), t.ZERO), 0
    p = t.add(s, off)
    end = defs.pv(P, p, k, 'PD@')
    if not e.decide(t.bor(t.eq0(k), t.le(end, t.add(s, ln)))):
        raise IndexError('Out of bounds on buffer access (axis 0)')
    el = defs.de(P, p, m, IX[0], IX[1])
    return SArr(U32, (n, m), el), mkint(t.sub(end, p))


def read_unsigned_varint(f):
    """tools.read_unsigned_varint"""
    b = as_sbytes(f.read(1))
    if not eng().decide(t.lt(t.ZERO, b.tlen())):
        raise IndexError('bytearray index out of range')
    P, p, _ = defs.single(b)
    n = defs.vl(P, p)
    rest = as_sbytes(f.read(mkint(t.addc(n, -1))))
    if not eng().decide(t.eq(rest.tlen(), t.addc(n, -1))):
        raise EOFError('File seems to be truncated')
    return mkint(defs.vu(P, p))


def read_varint(f):
    u = toT(read_unsigned_varint(f))
    a = u.m[0][0]
    return mkint(defs.vs(a.args[0][3:], a.args[1]))


# ---------------------------------------------------------------- headers
def conv(x, bits, signed=False):
    v = toT(x)
    if v is None:
        raise TypeError('an integer is required')
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
    e = eng()
    if not e.decide(t.le(t.const(lo), v)) or not e.decide(t.le(v, t.const(hi))):
        raise OverflowError('value too large to convert to C integer')
    return v


def bool_bit_from_pos(word, pos):
    w, p = conv(word, 32), conv(pos, 32)
    if p.m:
        p = split(p, 32)
    if p.c > 31:
        raise Unsupported('bit position outside the word')
    return mkbool(t.bnot(t.eq0(t.mod(t.div(w, 1 << p.c), 2))))


def split(x, n):
    e = eng()
    for k in range(n):
        if e.decide(t.eq(x, t.const(k))):
            return t.const(k)
    return t.const(n)


def get_bits_from_word(word, n_bits, first):
    w, n, f = conv(word, 32), conv(n_bits, 32), conv(first, 32)
    if n.m:
        n = split(n, 32)
    if f.m:
        f = split(f, 32)
    if n.c > 31 or f.c > 31:
        raise Unsupported('bit field outside the word')
    return mkint(t.mod(t.div(w, 1 << f.c), 1 << n.c))


class ObjectHeader:
    def __init__(self, **kw):
        self.__dict__.update(kw)
        eng().instances.append(self)

    @property
    def total_size(self):
        return self.content_size + self.header_size

    def __repr__(self):
        return 'Header'


def header_fields(P, p, toplevel):
    """fields of a header whose 12 bytes start at p"""
    w = t.app('U32@' + P, (p,), 0, (1 << 32) - 1)
    i = t.app('I32@' + P, (t.addc(p, 4),), -(1 << 31), (1 << 31) - 1)
    ln = t.app('U32@' + P, (t.addc(p, 8),), 0, (1 << 32) - 1)
    return header_of_words(w, i, ln, toplevel)


def header_of_words(w, i, ln, toplevel):
    bit = lambda x, k: t.mod(t.div(x, 1 << k), 2)
    ext = t.eq(bit(w, 17), t.ONE)
    size = t.addc(t.ite(ext, t.const(16), t.const(12)), 4 if toplevel else 0)
    return dict(id=mkint(i), type=mkint(t.mod(w, 1 << 16)), version=mkint(t.div(w, 1 << 20)),
                user=mkbool(t.eq(bit(w, 16), t.ONE)), extended=mkbool(ext),
                only_subobjects=mkbool(t.eq(bit(ln, 30), t.ONE)), header_size=mkint(size), content_address=0,
                content_size=mkint(t.mod(ln, 1 << 30)))


def parse_header_bytes(data, toplevel=False):
    d = as_sbytes(data)
    if d is None:
        raise TypeError('a bytes-like object is required')
    if not eng().decide(t.eq(d.tlen(), t.const(12))):
        raise EOFError('File seems to be truncated')
    w = d.load('u4', 4, t.ZERO)
    i = d.load('i4', 4, t.const(4))
    ln = d.load('u4', 4, t.const(8))
    e = eng()
    f = header_of_words(w, i, ln, bool(toplevel))
    if isinstance(f['extended'], SymBool):
        # the extension flag steers everything that follows
        f = header_of_words(w, i, ln, bool(toplevel)) if e.decide(f['extended'].b) is None else f
        f['extended'] = e.quick(f['extended'].b)
        f['header_size'] = (16 if f['extended'] else 12) + (4 if toplevel else 0)
    return ObjectHeader(**f)


def header_module(loader=None):
    return mkmodule('eventio.header', ObjectHeader=ObjectHeader, parse_header_bytes=parse_header_bytes,
                    bool_bit_from_pos=bool_bit_from_pos, get_bits_from_word=get_bits_from_word)


def varint_module(loader=None):
    from . import cyfront
    m = cyfront.module(loader, 'eventio.var_int')
    for f in (unsigned_varint, varint, get_length_of_varint, parse_varint, varint_array, unsigned_varint_array,
              unsigned_varint_arrays_differential):
        m.__dict__[f.__name__] = f
    return m


def parsing_module(loader=None):
    from . import cyfront
    return cyfront.module(loader, 'eventio.simtel.parsing')


# ---------------------------------------------------------------- payload access (contract C04)
class Payload:
    """read/seek/tell contract of EventIOObject over the payload bytes"""

    def __init__(self, data):
        self.data = data          # SBytes


def install_payload_contract(base):
    """replace read/seek/tell of EventIOObject by their contract"""
    real_read, real_seek, real_tell = base.read, base.seek, base.tell

    def read(self, size=-1):
        if not isinstance(self._filehandle, Payload):
            return real_read(self, size)
        e = eng()
        n = toT(self.size)
        p = toT(self._pos)
        rem = t.sub(n, p)
        if not e.decide(t.le(t.ZERO, rem)):
            rem = t.ZERO
        s = toT(size)
        if s is None:
            raise TypeError('integer argument expected')
        if not e.decide(t.le(t.ZERO, s)):
            s = rem
        elif not e.decide(t.le(s, rem)):
            e.short = True
            s = rem
        if s is t.ZERO:
            return b''
        d = self._filehandle.data
        if not e.decide(t.le(t.add(p, s), d.tlen())):
            if e.decide(t.eq0(s)):
                return b''
            raise EOFError('File seems to be truncated')
        self._pos = mkint(t.add(p, s))
        return norm_bytes(d.slice(p, t.add(p, s)))

    def seek(self, offset, whence=0):
        if not isinstance(self._filehandle, Payload):
            return real_seek(self, offset, whence)
        e = eng()
        o = toT(offset)
        n = toT(self.size)
        if whence == 0:
            if not e.decide(t.le(t.ZERO, o)):
                raise AssertionError()
        elif whence == 1:
            raise Unsupported('relative seek')
        elif whence == 2:
            if e.decide(t.lt(n, o)):
                o = n
            o = t.sub(n, o)
        else:
            raise ValueError('invalid whence')
        self._pos = mkint(o)
        return self._pos

    def tell(self):
        if not isinstance(self._filehandle, Payload):
            return real_tell(self)
        return self._pos
    base.read, base.seek, base.tell = read, seek, tell


# ---------------------------------------------------------------- C-level call sites of verified compiled functions
CONTRACTED = {}


def coverrides(name):
    """contracts used inside translated pyx code at calls of other compiled functions"""
    if name != 'eventio.var_int':
        return {}
    return {f.__name__: f for f in (unsigned_varint, varint, get_length_of_varint, parse_varint, varint_array,
                                    unsigned_varint_array, unsigned_varint_arrays_differential)}
