"""Logical functions shared by specifications and contracts.

VL@P(p)   length in bytes of the variable-length integer that starts at position p of buffer P (1..9)
VU@P(p)   its unsigned value, VS@P(p) its signed value
PV@P(p,k) position after k consecutive variable-length integers starting at p
DL@P(p)   length of the differential-array delta at p
PD@P(p,k) position after k deltas starting at p
DE@P(p,m,i,j) running sum (mod 2^32) of deltas 0..j of array i when arrays of m deltas start at p
"""
from . import terms as t
from . import core
from .core import RecFn, Unsupported, eng
from .values import Buf, as_sbytes, toT, mkint, register_buf_axioms

BIG = t.const(1 << 62)


def vl(P, p):
    return t.app('VL@' + P, (p,), 1, 9)


def vu(P, p):
    return t.app('VU@' + P, (p,), 0, (1 << 64) - 1)


def vs(P, p):
    return t.app('VS@' + P, (p,), -(1 << 63), (1 << 63) - 1)


def register(e, P):
    """declare the functions of buffer P in engine e"""
    if 'PV@' + P in e.recfns:
        return
    register_buf_axioms(e, P)
    for nm, ln in (('PV@', lambda x: vl(P, x)), ('PD@', lambda x: t.app('DL@' + P, (x,), 1, 5))):
        p = t.var('%s%s.p' % (nm, P))
        j = t.var('%s%s.j' % (nm, P), 0, None)
        f = RecFn(nm + P, [p.m[0][0]], j.m[0][0], p, BIG)
        f.step = t.add(f.at(j), ln(f.at(j)))
        f.mono = True
        e.recfns[f.name] = f

    def ax_vs(e, a, allatoms, level):
        p = a.args[1]
        u = vu(P, p)
        A = t.of_atom(a)
        h = t.div(u, 2)
        return [t.eq(A, t.ite(t.eq(t.mod(u, 2), t.ONE), t.addc(t.scale(h, -1), -1), h))]
    e.fnaxioms['VS@' + P] = ax_vs

    def ax_vl(e, a, allatoms, level):
        if level < 2:
            return []
        p = a.args[1]
        b = t.app('U8@' + P, (p,), 0, 255)
        A = t.of_atom(a)
        out = []
        th = [0x80, 0xc0, 0xe0, 0xf0, 0xf8, 0xfc, 0xfe, 0xff]
        lo = 0
        for n, h in enumerate(th, 1):
            out.append(t.implies(t.band(t.le(t.const(lo), b), t.lt(b, t.const(h))), t.eq(A, t.const(n))))
            lo = h
        out.append(t.implies(t.eq(b, t.const(255)), t.eq(A, t.const(9))))
        return out
    e.fnaxioms['VL@' + P] = ax_vl


def pv(P, p, k, nm='PV@'):
    """position after k encodings from p (composition of two steps is one: PV(PV(p,a),b) = PV(p,a+b))"""
    if len(p.m) == 1 and p.c == 0 and p.m[0][1] == 1:
        a = p.m[0][0]
        if a.kind == 'app' and a.args[0] == nm + P:
            return t.app(nm + P, (a.args[1], t.add(a.args[2], k)))
    return t.app(nm + P, (p, k))


# ---------------------------------------------------------------- kernel: definitions by bytes
TH = [0x80, 0xc0, 0xe0, 0xf0, 0xf8, 0xfc, 0xfe, 0xff]


def byte(P, p):
    return t.app('U8@' + P, (p,), 0, 255)


def lead(n):
    """value of the length prefix in the first byte of an encoding of n bytes"""
    return (0xff00 >> (n - 1)) & 0xff


def be(P, p, n, first):
    """big-endian value of n bytes, first byte replaced by `first`"""
    v = t.scale(first, 1 << (8 * (n - 1)))
    for i in range(1, n):
        v = t.add(v, t.scale(byte(P, t.addc(p, i)), 1 << (8 * (n - 1 - i))))
    return v


def expand(P, p):
    """make the definition of VL and VU at p available (case split on the first byte)"""
    e = eng()
    b = byte(P, p)
    n = 9
    for k, h in enumerate(TH, 1):
        if e.decide(t.lt(b, t.const(h))):
            n = k
            break
    e.assume(t.eq(vl(P, p), t.const(n)))
    first = t.addc(b, -lead(n)) if n < 9 else t.ZERO
    e.assume(t.eq(vu(P, p), be(P, p, n, first)))
    return n


def dv(P, p):
    return t.app('DV@' + P, (p,), -(1 << 34), 1 << 34)


def dl(P, p):
    return t.app('DL@' + P, (p,), 1, 5)


def dok(P, p):
    """the first byte at p starts a valid delta"""
    return t.lt(byte(P, p), t.const(0xf8))


def expand_delta(P, p):
    """definition of DL and DV at p"""
    e = eng()
    b = byte(P, p)
    if not e.decide(dok(P, p)):
        raise core.SpecUndefined()
    n = 5
    for k, h in enumerate(TH[:4], 1):
        if e.decide(t.lt(b, t.const(h))):
            n = k
            break
    e.assume(t.eq(dl(P, p), t.const(n)))
    u = be(P, p, n, t.addc(b, -lead(n)))
    last = byte(P, t.addc(p, n - 1))
    neg = e.decide(t.eq(t.mod(last, 2), t.ONE))
    h = t.div(u, 2)
    e.assume(t.eq(dv(P, p), t.addc(t.scale(h, -1), -1) if neg else h))
    return n


def ds(P, p, j):
    return t.app('DS@' + P, (p, j), -(1 << 31), (1 << 31) - 1)


def register_kernel(e, P):
    """running sum of deltas; elements of differential arrays in terms of it"""
    p = t.var('DS@%s.p' % P)
    j = t.var('DS@%s.j' % P, 0, None)
    f = RecFn('DS@' + P, [p.m[0][0]], j.m[0][0], t.ZERO, BIG)
    f.lo, f.hi = -(1 << 31), (1 << 31) - 1
    x = t.add(f.at(j), dv(P, t.app('PD@' + P, (p, j))))
    f.step = t.addc(t.mod(t.addc(x, 1 << 31), 1 << 32), -(1 << 31))
    e.recfns[f.name] = f
    e.recfns['PD@' + P].maxstep = 5
    e.recfns['PV@' + P].maxstep = 9
    e.kernel = True


def de(P, p, m, i, j):
    if getattr(eng(), 'kernel', False):
        return t.mod(ds(P, pv(P, p, t.mul(i, m), 'PD@'), t.addc(j, 1)), 1 << 32)
    return t.app('DE@' + P, (p, m, i, j), 0, (1 << 32) - 1)


def single(data):
    """(buffer name, start T, length T) of a byte string that is one piece of a buffer"""
    d = as_sbytes(data)
    if d is None:
        raise TypeError('a bytes-like object is required')
    if not d.segs:
        return None, t.ZERO, t.ZERO
    if len(d.segs) != 1 or d.segs[0][0] != 'b':
        raise Unsupported('compiled reader on composite bytes')
    s = d.segs[0]
    return s[1].name, s[2], s[3]


def u64(x, what='value'):
    """conversion of a python int to uint64_t"""
    v = toT(x)
    if v is None:
        raise TypeError('an integer is required')
    e = eng()
    if not e.decide(t.le(t.ZERO, v)):
        raise OverflowError("can't convert negative value to uint64_t")
    if not e.decide(t.lt(v, t.const(1 << 64))):
        raise OverflowError('int too large to convert')
    return v
