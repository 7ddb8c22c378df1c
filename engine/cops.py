"""Meaning of the C operations emitted by cyfront (LP64, two's complement, wrapping signed arithmetic
as the extension modules are built with -fno-strict-overflow / -fwrapv by the Python build flags)."""
import numpy as np
from . import terms as t
from . import core, values as V, arrays
from .core import Unsupported, eng
from .values import SymInt, SymBool, SymFloat, SBytes, SList, Heap, Poison, mkint, mkbool, toT, toB, as_sbytes, norm_bytes, i_and, i_or, i_shl
from .arrays import SArr, IX, IXA, NpFloat, NpInt

NPT = {'NPY_UINT8': 'u1', 'NPY_INT8': 'i1', 'NPY_UINT16': 'u2', 'NPY_INT16': 'i2', 'NPY_UINT32': 'u4', 'NPY_INT32': 'i4',
       'NPY_UINT64': 'u8', 'NPY_INT64': 'i8', 'NPY_FLOAT32': 'f4', 'NPY_FLOAT': 'f4', 'NPY_FLOAT64': 'f8', 'NPY_DOUBLE': 'f8'}
F4, F8 = np.dtype('f4'), np.dtype('f8')


class MemoryUnsafe(RuntimeError):
    """an access outside the bounds of a buffer"""


def bits(d):
    return 8 if d == 'b' else int(d[1:])


def npd(d):
    return np.dtype({'u': 'u', 'i': 'i', 'f': 'f'}[d[0]] + str(int(d[1:]) // 8))


def promote(d):
    if d[0] in 'uib' and (d == 'b' or bits(d) < 32):
        return 'i32'
    return d


def common(a, b):
    """usual arithmetic conversions"""
    if a[0] == 'f' or b[0] == 'f':
        if 'f64' in (a, b):
            return 'f64'
        return 'f32'
    a, b = promote(a), promote(b)
    if a == b:
        return a
    if a[0] == b[0]:
        return a if bits(a) >= bits(b) else b
    u, s = (a, b) if a[0] == 'u' else (b, a)
    if bits(u) >= bits(s):
        return u
    return s


def unsafe(cond, what):
    """the access is in bounds on every path, else the path ends as a memory error"""
    e = eng()
    if e.entails(cond):
        e.notes.add('in-bounds obligations discharged')
        return
    if not e.decide(cond):
        raise MemoryUnsafe(what)


def cwrap(v, w, signed):
    """result of C arithmetic; the reduction disappears where the value provably fits"""
    e = eng()
    lo, hi = e.interval(v)
    a, b = (-(1 << w - 1), (1 << w - 1) - 1) if signed else (0, (1 << w) - 1)
    if lo is not None and hi is not None and a <= lo and hi <= b:
        return mkint(v)
    if w == 64:
        goals = [t.bnot(t.band(t.le(t.const(a), v), t.le(v, t.const(b))))]
        for lv in (0, 1):
            if e.solve(goals, lv, timeout=1500)[0] == 'unsat':
                return mkint(v)
    return V.wrap(v, w, signed)


class CArr(Heap):
    """a C array of fixed length"""

    def __init__(self, n, el, vals=None):
        self._register()
        self.vals = list(vals) if vals is not None else [Poison('uninitialised array element')] * n
        self.eld = el

    def _slots(self):
        return {('a', k): v for k, v in enumerate(self.vals)}

    def _setslot(self, k, v):
        self.vals[k[1]] = v

    def _trunc(self, n):
        pass


class Ptr:
    """pointer to element `off` bytes into a byte view"""
    def __init__(self, data, off, eld):
        self.data, self.off, self.eld = data, off, eld


class RowView:
    """memoryview of one row of an array (writes go to the array)"""
    def __init__(self, base, prefix):
        self.base, self.prefix = base, tuple(prefix)

    @property
    def dt(self):
        return self.base.dt

    @property
    def shape_(self):
        return self.base.shape_[len(self.prefix):]


class PyArray(SList):
    """array.array with a typecode"""
    typecode = 'h'


class Shape:
    def __init__(self, dims):
        self.dims = dims

    @property
    def vals(self):
        return self.dims

    def __getitem__(self, i):
        if isinstance(i, int):
            return self.dims[i]
        raise Unsupported('shape index')


class Ops:
    def __init__(self, mod):
        self.mod = mod

    # ------------------------------------------------------------ conversions
    def cast(self, v, s, d):
        if isinstance(v, Poison):
            return v
        if d == 'b':
            if s == 'b':
                return v
            if s[0] == 'f':
                raise Unsupported('float to bint')
            return mkbool(t.bnot(t.eq0(toT(v))))
        if d[0] in 'ui':
            if s[0] == 'f':
                raise Unsupported('float to integer conversion')
            return cwrap(toT(v), bits(d), d[0] == 'i')
        if d[0] == 'f':
            if s[0] in 'uib':
                return SymFloat(arrays.i2f(toT(v), bits(d)))
            f = V.toF(v)
            if bits(d) < 64 and s != d:
                return SymFloat(arrays.round_const(f, bits(d)))
            return SymFloat(f)
        raise Unsupported('cast %s' % d)

    def cast_tuple(self, v, s, d):
        a, b = s[4:-1].split(','), d[4:-1].split(',')
        return tuple(self.cast(x, p, q) for x, p, q in zip(v, a, b))

    def ctype(self, a, b):
        return common(a, b)

    def topy(self, v, d):
        if d.startswith('ct:'):
            return tuple(self.topy(x, q) for x, q in zip(v, d[4:-1].split(',')))
        if isinstance(v, Poison):
            raise Unsupported('uninitialised value')
        if d == 'b' and isinstance(v, (int, SymInt)):
            return mkbool(t.bnot(t.eq0(toT(v))))
        if isinstance(v, SymInt) and not isinstance(v, NpInt):
            return v
        if isinstance(v, NpInt):
            return mkint(toT(v))
        if isinstance(v, SymFloat):
            return V.SymFloat(v.f)
        return v

    def frompy(self, v, d):
        return frompy(v, d)

    def truth(self, v):
        return bool(v)

    def nonzero(self, v, d):
        if d[0] == 'f':
            raise Unsupported('truth of float')
        if isinstance(v, (bool, SymBool)):
            return v
        return mkbool(t.bnot(t.eq0(toT(v))))

    def typetest(self, v, tp):
        if isinstance(v, arrays.SArr) or v is None:
            return v
        return v

    def asbuffer(self, v, d):
        if v is None:
            return v
        if not isinstance(v, SArr):
            raise TypeError('Cannot convert object to numpy.ndarray')
        _, el, nd = d.split(':')
        if v.dt != npd(el) or len(v.shape_) != int(nd):
            raise ValueError('Buffer dtype mismatch')
        return v

    def asview(self, v, d):
        return asview(v, d)

    # ------------------------------------------------------------ arithmetic
    def bin(self, op, a, b, da, db, dt):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported('uninitialised operand %s' % [getattr(x, 'name', None) or getattr(x, 'what', None) or x.__dict__ for x in (a, b) if isinstance(x, Poison)])
        if op in ('shl', 'shr'):
            r = promote(da)
            x, y = toT(a), toT(b)
            e = eng()
            if y.m:
                lo, hi = e.interval(y)
                if lo is None or hi is None or lo < 0 or hi >= bits(r):
                    if not e.entails(t.band(t.le(t.ZERO, y), t.lt(y, t.const(bits(r))))):
                        raise Unsupported('shift by an unknown amount')
                    lo, hi = 0, bits(r) - 1
                for k in range(lo, hi + 1):
                    if k == hi or e.decide(t.eq(y, t.const(k))):
                        y = t.const(k)
                        break
            if not 0 <= y.c < bits(r):
                raise Unsupported('shift outside the width of the type')
            if op == 'shr':
                return mkint(t.div(x, 1 << y.c))
            return V.wrap(t.scale(x, 1 << y.c), bits(r), r[0] == 'i')
        r = common(da, db)
        if r[0] == 'f':
            fa, fb = self.cast(a, da, r), self.cast(b, db, r)
            if op not in ('add', 'sub', 'mul'):
                raise Unsupported('float %s' % op)
            if r == 'f32':
                return SymFloat(arrays.fop(op, V.toF(fa), V.toF(fb), F4))
            return V.f_op(op, fa, fb)
        x = toT(self.cast(a, promote(da) if da == 'b' else da, r)) if da != 'b' else toT(a)
        y = toT(self.cast(b, db, r)) if db != 'b' else toT(b)
        if op == 'add':
            v = t.add(x, y)
        elif op == 'sub':
            v = t.sub(x, y)
        elif op == 'mul':
            v = t.mul(x, y)
        elif op in ('and', 'or', 'xor'):
            v = bitop(op, x, y)
        else:
            raise Unsupported('operator %s' % op)
        return cwrap(v, bits(r), r[0] == 'i')

    def cdiv(self, op, a, b, da, db, dt, cdiv):
        if dt[0] not in 'ui':
            raise Unsupported('float division')
        x, y = self.cast(a, da, dt), self.cast(b, db, dt)
        ty = toT(y)
        e = eng()
        if not cdiv and e.decide(t.eq0(ty)):
            raise ZeroDivisionError('integer division or modulo by zero')
        if ty.m or ty.c <= 0 or cdiv and dt[0] == 'i':
            raise Unsupported('division')
        return mkint(t.div(toT(x), ty.c) if op == '//' else t.mod(toT(x), ty.c))

    def neg(self, a, da, dt):
        r = promote(da)
        if r[0] == 'f':
            return V.f_op('neg', a) if not isinstance(a, float) else -a
        return V.wrap(t.scale(toT(a), -1), bits(r), r[0] == 'i')

    def inv(self, a, da):
        r = promote(da)
        return V.wrap(t.addc(t.scale(toT(a), -1), -1), bits(r), r[0] == 'i')

    def cmp(self, op, a, b, da, db):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported('uninitialised operand %s' % [getattr(x, 'name', None) or getattr(x, 'what', None) or x.__dict__ for x in (a, b) if isinstance(x, Poison)])
        r = common(da, db)
        if r[0] == 'f':
            fa, fb = self.cast(a, da, r), self.cast(b, db, r)
            return {'==': lambda: fa == fb, '!=': lambda: fa != fb, '<': lambda: fa < fb, '<=': lambda: fa <= fb,
                    '>': lambda: fa > fb, '>=': lambda: fa >= fb}[op]()
        x = toT(a) if da == 'b' else toT(self.cast(a, da, r))
        y = toT(b) if db == 'b' else toT(self.cast(b, db, r))
        if op == '==':
            return mkbool(t.eq(x, y))
        if op == '!=':
            return mkbool(t.bnot(t.eq(x, y)))
        if op == '<':
            return mkbool(t.lt(x, y))
        if op == '<=':
            return mkbool(t.le(x, y))
        if op == '>':
            return mkbool(t.lt(y, x))
        if op == '>=':
            return mkbool(t.le(y, x))
        raise Unsupported('comparison %s' % op)

    def nan(self):
        return SymFloat(t.fterm('const', 'nan'))

    # ------------------------------------------------------------ arrays and views
    def carray(self, d, *vals):
        _, el, n = d.split(':')
        return CArr(int(n), el, vals)

    def newarray(self, d):
        _, el, n = d.split(':')
        return CArr(int(n), el)

    def cafill(self, a, v):
        if isinstance(v, CArr):
            v = v.vals
        if len(v) != len(a.vals):
            raise Unsupported('array fill')
        for k, x in enumerate(v):
            a.vals[k] = self.cast(x, 'i64', a.eld) if a.eld[0] in 'ui' else x

    def caget(self, a, i):
        k = toT(i)
        if k.m:
            raise Unsupported('C array at variable index')
        if not 0 <= k.c < len(a.vals):
            raise MemoryUnsafe('C array index')
        v = a.vals[k.c]
        if isinstance(v, Poison):
            raise Unsupported('uninitialised array element')
        return v

    def caset(self, a, i, v):
        if isinstance(a, RowView):
            raise Unsupported('row')
        k = toT(i)
        if k.m:
            raise Unsupported('C array at variable index')
        if not 0 <= k.c < len(a.vals):
            raise MemoryUnsafe('C array index')
        a.vals[k.c] = v

    def shape(self, v):
        d = as_sbytes(v) if not isinstance(v, (SArr, RowView)) else None
        if d is not None:
            return Shape([mkint(d.tlen())])
        if v is None:
            raise Unsupported('shape of None')
        return Shape([mkint(s) for s in v.shape_])

    def len(self, v):
        d = as_sbytes(v) if not isinstance(v, (SArr, RowView)) else None
        if d is not None:
            return mkint(d.tlen())
        if isinstance(v, (SArr, RowView)):
            return mkint(v.shape_[0])
        from .shims import BUILTINS
        return BUILTINS['len'](v)

    def check_index(self, i, d, n, bc, wrapa, what):
        """T of the element index"""
        e = eng()
        k = toT(i)
        if d[0] == 'i' and wrapa:
            if not e.decide(t.le(t.ZERO, k)):
                k = t.add(k, n)
        ok = t.band(t.le(t.ZERO, k), t.lt(k, n))
        if bc:
            if not e.decide(ok):
                raise IndexError('Out of bounds on buffer access (%s)' % what)
        else:
            unsafe(ok, what)
        return k

    def mvget(self, v, idx, bc, wr, d):
        if v is None:
            raise Unsupported('access to None')
        db = as_sbytes(v) if not isinstance(v, (SArr, RowView)) else None
        if db is not None:
            (i, di), = idx
            k = self.check_index(i, di, db.tlen(), bc, wr, 'axis 0')
            return mkint(db.byte(k))
        ks = [self.check_index(i, di, n, bc, wr, 'axis %d' % q) for q, ((i, di), n) in enumerate(zip(idx, v.shape_))]
        if len(ks) != len(v.shape_):
            raise Unsupported('partial index')
        base, pre = (v.base, list(v.prefix)) if isinstance(v, RowView) else (v, [])
        el = arrays.esubst(base.content(), {IXA[q]: k for q, k in enumerate(pre + ks)})
        if isinstance(el, t.T):
            return mkint(el)
        if isinstance(el, t.B):
            return mkbool(el)
        return SymFloat(el)

    def mvset(self, v, idx, bc, wr, val, d):
        if v is None:
            raise Unsupported('store to None')
        if not isinstance(v, (SArr, RowView)):
            raise Unsupported('store to bytes')
        ks = [self.check_index(i, di, n, bc, wr, 'axis %d' % q) for q, ((i, di), n) in enumerate(zip(idx, v.shape_))]
        if len(ks) != len(v.shape_):
            raise Unsupported('partial index')
        if isinstance(val, Poison):
            raise Unsupported('uninitialised value stored')
        base, pre = (v.base, list(v.prefix)) if isinstance(v, RowView) else (v, [])
        dt = base.dt
        el = arrays.pyscalar_el(val, dt)
        base.write([('i', k) for k in pre + ks], el)

    def mvslice(self, v, parts, bc, wr, d):
        db = as_sbytes(v) if not isinstance(v, (SArr, RowView)) else None
        if db is not None:
            (p,) = parts
            _, a, b, s = p
            if s is not None:
                raise Unsupported('stepped view')
            return norm_bytes(db[slice(a, b)]) if not (a is None and b is None) else v
        if not isinstance(v, SArr):
            raise Unsupported('slice of a row view')
        pre = []
        for q, p in enumerate(parts):
            if p[0] == 'i':
                if q != len(pre):
                    raise Unsupported('view of inner axis')
                pre.append(self.check_index(p[1], p[2], v.shape_[q], bc, wr, 'axis %d' % q))
            elif p[1] is not None or p[2] is not None or p[3] is not None:
                raise Unsupported('slice of an array view')
        if not pre:
            return v
        return RowView(v, pre)

    def addr(self, v, idx, bc, wr, d):
        db = as_sbytes(v) if not isinstance(v, (SArr, RowView)) else None
        if db is None:
            raise Unsupported('address of array element')
        (i, di), = idx
        k = self.check_index(i, di, db.tlen(), bc, wr, 'axis 0')
        return Ptr(db, k, d)

    def cast_ptr(self, p, d):
        if not isinstance(p, Ptr):
            raise Unsupported('pointer cast')
        return Ptr(p.data, p.off, d.split(':', 1)[1])

    def deref(self, p, i, d):
        if not isinstance(p, Ptr):
            raise Unsupported('dereference')
        size = bits(d) // 8
        k = t.add(p.off, t.scale(toT(i), size))
        n = p.data.tlen()
        unsafe(t.band(t.le(t.ZERO, k), t.le(t.addc(k, size), n)), 'load of %d bytes' % size)
        kind = d[0] + str(size)
        x = p.data.load(kind, size, k)
        if isinstance(x, t.T):
            return mkint(x)
        return SymFloat(x)

    # ------------------------------------------------------------ numpy C API
    def _dims(self, nd, shape):
        n = toT(nd).c
        if n != len(shape.vals) and n > len(shape.vals):
            raise MemoryUnsafe('shape array')
        dims = [toT(x) for x in shape.vals[:n]]
        e = eng()
        for s in dims:
            if not e.decide(t.le(t.ZERO, s)):
                raise ValueError('negative dimensions are not allowed')
        # sizes whose byte count leaves the address space are refused by numpy; allocation itself is assumed to succeed
        tot = t.ONE
        for s in dims:
            tot = t.mul(tot, s)
        if not e.decide(t.lt(tot, t.const(1 << 60))):
            raise ValueError('array is too big')
        return tuple(dims)

    def PyArray_SimpleNew(self, nd, shape, typ):
        dims = self._dims(nd, shape)
        return arrays.uninit(tuple(mkint(s) for s in dims), np.dtype(NPT[typ]))

    def PyArray_EMPTY(self, nd, shape, typ, fortran):
        return self.PyArray_SimpleNew(nd, shape, typ)

    def PyArray_ZEROS(self, nd, shape, typ, fortran):
        dims = self._dims(nd, shape)
        return arrays.full(tuple(mkint(s) for s in dims), 0, np.dtype(NPT[typ]))

    def PyArray_FillWithScalar(self, a, v):
        if a is None:
            raise Unsupported('fill of None')
        el = arrays.pyscalar_el(v, a.dt)
        a.write([('s', t.ZERO, n, k) for k, n in enumerate(a.shape_)], el)
        return 0

    # ------------------------------------------------------------ python objects
    def pyarray(self, code):
        a = PyArray()
        a.typecode = code
        return a

    def new(self, name, *args):
        return newobj(self.mod, name)

    def joined(self, *xs):
        return ''.join(x if isinstance(x, str) else '<?>' for x in xs)

    def fmt(self, v):
        return str(v) if isinstance(v, int) else '<?>'

    def unpack(self, v, n):
        from .shims import Op
        return Op.unpack(v, n)

    def range(self, d, *args):
        a, b, c = (0, args[0], 1) if len(args) == 1 else (args[0], args[1], 1) if len(args) == 2 else args
        e = eng()
        A, Bt, S = toT(a), toT(b), toT(c)
        if S.m or S.c != 1:
            raise Unsupported('stepped C range')
        lo, hi = e.interval(Bt)
        if not Bt.m and not A.m and Bt.c - A.c <= 64:
            return [self.cast(k, 'i64', d) if d != 'o' else k for k in range(A.c, Bt.c)]
        if d != 'o':
            w = bits(d)
            mn, mx = (0, (1 << w) - 1) if d[0] == 'u' else (-(1 << w - 1), (1 << w - 1) - 1)
            if not e.decide(t.lt(A, Bt)):
                return []
            if not e.entails(t.band(t.le(t.const(mn), A), t.le(Bt, t.addc(t.const(mx), 1)))):
                if not e.decide(t.band(t.le(t.const(mn), A), t.le(Bt, t.addc(t.const(mx), 1)))):
                    raise Unsupported('loop bounds leave the type of the loop variable')
        n = t.sub(Bt, A)
        nl, nh = e.interval(n)
        if nh is not None and nh <= 9:
            for k in range(nh + 1):
                if k == nh or e.decide(t.eq(n, t.const(k))):
                    return [mkint(t.addc(A, q)) for q in range(k)]
        from .loops import SymRange
        return SymRange(A, Bt, 1)


def bitop(op, x, y):
    if op == 'and':
        return toT(i_and(mkint(x), mkint(y)))
    if op == 'or':
        return toT(i_or(mkint(x), mkint(y)))
    return toT(mkint(x) ^ mkint(y))


class Obj:
    """instance of a cdef class: zero-initialised C attributes"""
    pass


def newobj(mod, name):
    from . import contracts
    fields = mod.classes.get(name)
    if fields is None:
        raise Unsupported('cdef class %s' % name)
    if name == 'ObjectHeader':
        return contracts.ObjectHeader(**{k: (False if d == 'b' else 0) for k, d in fields.items()})
    raise Unsupported('cdef class %s' % name)


def frompy(v, d):
    """conversion of a Python object to a C value"""
    if isinstance(v, Poison):
        raise Unsupported('uninitialised value')
    if d == 'b':
        from .shims import BUILTINS
        b = v if isinstance(v, (bool, SymBool)) else BUILTINS['bool'](v) if not isinstance(v, SymInt) else mkbool(t.bnot(t.eq0(toT(v))))
        return b
    if d[0] in 'ui':
        if isinstance(v, (float, SymFloat, str, bytes)) or v is None:
            raise TypeError('an integer is required')
        x = toT(v)
        if x is None:
            raise TypeError('an integer is required')
        w = bits(d)
        mn, mx = (0, (1 << w) - 1) if d[0] == 'u' else (-(1 << w - 1), (1 << w - 1) - 1)
        e = eng()
        if not e.decide(t.le(t.const(mn), x)):
            raise OverflowError("can't convert negative value")
        if not e.decide(t.le(x, t.const(mx))):
            raise OverflowError('value too large to convert')
        return mkint(x)
    if d[0] == 'f':
        f = V.toF(v) if not isinstance(v, (int, SymInt, bool)) else arrays.i2f(toT(v), 64)
        if f is None:
            raise TypeError('must be real number')
        if d == 'f32':
            f = arrays.round_const(f, 32)
        return SymFloat(f)
    if d == 'o':
        return v
    if d.startswith('mv:'):
        return asview(v, d)
    raise Unsupported('conversion to %s' % d)


def asview(v, d):
    if v is None:
        return None
    _, el, nd = d.split(':')
    if el == 'u8' and int(nd) == 1 and not isinstance(v, (SArr, RowView)):
        b = as_sbytes(v)
        if b is None:
            raise TypeError('a bytes-like object is required')
        return b
    if isinstance(v, (SArr, RowView)):
        if v.dt != npd(el):
            raise ValueError('Buffer dtype mismatch')
        if len(v.shape_) != int(nd):
            raise ValueError('Buffer has wrong number of dimensions')
        return v
    raise TypeError('a bytes-like object is required')


def pywrapper(name, f, args, ret):
    """the Python-visible function: argument conversions, C call, result conversion"""
    nargs = len(args)
    ops = Ops(None)

    def call(*a, **k):
        if len(a) > nargs:
            raise TypeError('%s() takes at most %d arguments' % (name, nargs))
        vals = []
        for i, (nm, d) in enumerate(args):
            if i < len(a):
                if nm in k:
                    raise TypeError('multiple values for argument')
                v = a[i]
            elif nm in k:
                v = k.pop(nm)
            else:
                rest = [n2 for n2, _ in args[i:]]
                vals.append(None)
                vals.pop()
                break
            vals.append(frompy(v, d) if d != 'o' else v)
        else:
            rest = []
        kw = {}
        for nm, d in args[len(vals):]:
            if nm in k:
                v = k.pop(nm)
                kw[nm] = frompy(v, d) if d != 'o' else v
        if k:
            raise TypeError('%s() got an unexpected keyword argument %r' % (name, list(k)[0]))
        r = f(*vals, **kw)
        return ops.topy(r, ret) if ret != 'o' else r
    call.__name__ = name
    return call
