"""Native execution of the specification functions (oracle and input generator)."""
import math
import random
import struct
import numpy as np


class SpecUndefined(Exception):
    """input outside the domain of the specification"""


class SpecRaise(Exception):
    """the specification demands an exception of this kind"""
    def __init__(self, kind):
        self.kind = kind
        super().__init__(kind)


INT = {'i1': 'b', 'u1': 'B', 'i2': 'h', 'u2': 'H', 'i4': 'i', 'u4': 'I', 'i8': 'q', 'u8': 'Q', 'b1': '?',
       'f2': 'e', 'f4': 'f', 'f8': 'd'}


class Hdr:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __repr__(self):
        return 'Hdr(%s)' % ', '.join('%s=%r' % kv for kv in sorted(self.__dict__.items()))


def enc_uvarint(u, rng=None, length=None):
    """shortest (or given) encoding of u"""
    n = 1
    while n < 9 and u >> (7 * n):
        n += 1
    if length is not None and length >= n:
        n = length
    if n == 9:
        return b'\xff' + u.to_bytes(8, 'big')
    first = (0xff00 >> (n - 1)) & 0xff
    raw = bytearray(u.to_bytes(n, 'big'))
    raw[0] |= first
    return bytes(raw)


def zz(v):
    return -2 * v - 1 if v < 0 else 2 * v


def unzz(u):
    return -(u >> 1) - 1 if u & 1 else u >> 1


class Reader:
    """reads from given bytes"""
    gen = False

    def __init__(self, data, pos=0):
        self.data = bytes(data)
        self.pos = pos

    # preconditions
    def need(self, c):
        if not c:
            raise SpecUndefined()

    def need_le(self, a, b):
        self.need(a <= b)

    def supported(self, c):
        if not c:
            raise SpecRaise('NotImplementedError')

    def refuse(self, ok, kind):
        if not ok:
            raise SpecRaise(kind)

    def at_end(self):
        self.need(self.pos == len(self.data))

    def fill(self, name, v):
        pass

    # raw
    def bytes(self, n):
        self.need(n >= 0 and self.pos + n <= len(self.data))
        b = self.data[self.pos:self.pos + n]
        self.pos += n
        return b

    def rest(self, n=0):
        self.need(len(self.data) - self.pos >= n)
        return self.bytes(len(self.data) - self.pos)

    def _num(self, kind, g=None):
        return struct.unpack('<' + INT[kind], self.bytes(struct.calcsize('<' + INT[kind])))[0]

    def u8(self, g=None):
        return self._num('u1', g)

    def i16(self, g=None):
        return self._num('i2', g)

    def u16(self, g=None):
        return self._num('u2', g)

    def i32(self, g=None):
        return self._num('i4', g)

    def u32(self, g=None):
        return self._num('u4', g)

    def f32(self, g=None):
        return self._num('f4', g)

    def f64(self, g=None):
        return self._num('f8', g)

    def time(self):
        return (self.i32(), self.i32())

    def count(self, kind, **kw):
        n = self._num(kind)
        self.need(n >= 0)
        return n

    def deferred_count(self, kind, name):
        return self.count(kind)

    def uvarint(self, g=None):
        b = self.bytes(1)[0]
        n = 1
        while n < 9 and (b << (n - 1)) & 0x80:
            n += 1
        v = b & (0xff >> n)
        for x in self.bytes(n - 1):
            v = v << 8 | x
        return v

    def varint(self, g=None):
        return unzz(self.uvarint())

    def vcount(self, **kw):
        n = self.varint()
        self.need(n >= 0)
        return n

    def uvcount(self, **kw):
        return self.uvarint()

    # arrays
    def arr(self, dt, n, g=None):
        d = np.dtype('<' + dt if dt[0] in 'iuf' else '?')
        self.need(0 <= n)
        return np.frombuffer(self.bytes(n * d.itemsize), dtype=d).copy()

    def arr2(self, dt, n, m, g=None):
        return self.arr(dt, n * m, g).reshape(n, m)

    def uvarints(self, n, bits=64, g=None):
        self.need(n <= len(self.data))
        out = np.zeros(n, 'u8')
        for i in range(n):
            v = self.uvarint()
            self.need(v < 1 << bits)
            out[i] = v
        return out

    def varints(self, n, g=None):
        self.need(0 <= n <= len(self.data))
        return np.array([self.varint() for _ in range(n)], dtype='i8')

    def varints2(self, n, m, g=None):
        self.need(n * m <= len(self.data) and n + m < 2 ** 30)
        return self.varints(n * m, g).reshape(n, m)

    def string(self):
        return self.bytes(self.count('i2'))

    def vstring(self):
        return self.bytes(self.uvcount())

    def ascii(self, choices):
        b = self.bytes(1)
        self.need(b[0] < 128)
        return b.decode('ascii')

    def utf8(self):
        b = self.string()
        try:
            return b.decode('utf-8')
        except UnicodeDecodeError:
            raise SpecUndefined()

    def table(self, fields, n, g=None):
        dt = np.dtype([(k, '<' + t if t != 'b1' else '?') for k, t in fields])
        a = np.frombuffer(self.bytes(n * dt.itemsize), dtype=dt)
        return {k: a[k].copy() for k, _ in fields}

    def delta(self):
        """signed delta of a differential array: 1..5 byte encoding"""
        b = self.bytes(1)[0]
        n = 1
        while n < 6 and (b << (n - 1)) & 0x80:
            n += 1
        self.need(n <= 5)
        v = b & (0xff >> n)
        for x in self.bytes(n - 1):
            v = v << 8 | x
        return unzz(v)

    def diff(self, n, m):
        self.need(0 <= n < 2 ** 40 and 0 <= m < 2 ** 40)
        self.need(n * m <= len(self.data))
        out = np.zeros((n, m), 'u4')
        if m == 0:
            return out
        for i in range(n):
            v = 0
            for j in range(m):
                v += self.delta()
                out[i, j] = v % 2 ** 32
        return out

    def subobject(self, etype):
        w = self.u32()
        self.need(w & 0xffff == etype)
        self.i32()
        ln = self.u32() & 0x3fffffff
        if w >> 17 & 1:
            ln += (self.u32() & 0xfff) << 30
        return Reader(self.bytes(ln))


SPECIAL_I = [0, 1, -1, 2, 3, 5, 100, -100, 127, 128, 255, 256, 32767, -32768, 65535, 65536, 2 ** 31 - 1, -2 ** 31,
             0x55aa55aa, 0x12345678]


class GenReader(Reader):
    """produces random well-formed bytes while being read"""
    gen = True

    def __init__(self, rng, maxcount=4, out=None, root=None):
        self.rng = rng
        self.out = out if out is not None else bytearray()
        self.maxcount = maxcount
        self.patch = {}
        self.subs = [] if root is None else root.subs
        self.trailing = True
        self.undefined = False
        self.cuts = []
        self.root = root or self

    def need(self, c):
        if not c:
            raise SpecUndefined()

    def need_le(self, a, b):
        self.need(a <= b)

    def at_end(self):
        self.root.trailing = False

    def bytes(self, n):
        self.need(0 <= n < 100000)
        b = bytes(self.rng.randrange(256) for _ in range(n))
        self.out += b
        return b

    def rest(self, n=0):
        self.root.trailing = False
        b = np.frombuffer(np.array([self.rng.uniform(0, 200) for _ in range(n // 4)], '<f4').tobytes(), 'u1').tobytes()
        self.out += b
        return b

    def _num(self, kind, g=None):
        rng = self.rng
        if kind[0] == 'f':
            v = rng.choice(g) if g is not None and rng.random() < .8 else rng.choice(
                [0.0, 1.0, -1.5, rng.uniform(-1e3, 1e3), rng.uniform(-1, 1), 1e-3, 0.1])
            if rng.random() < 0.02:
                v = rng.choice([float('nan'), float('inf')])
        elif g is not None and len(g) and rng.random() < .9:
            v = rng.choice(list(g)[:1000]) if not isinstance(g, range) else rng.choice(g)
        else:
            n = int(kind[1]) * 8
            v = rng.choice(SPECIAL_I) if rng.random() < .5 else rng.getrandbits(n)
            v %= 1 << n
            if kind[0] == 'i' and v >> (n - 1):
                v -= 1 << n
        b = struct.pack('<' + INT[kind], v)
        self.out += b
        return struct.unpack('<' + INT[kind], b)[0]

    def count(self, kind, cap=None, low=0, big=None):
        m = cap if cap is not None else self.maxcount
        if big is not None and self.rng.random() < .5:
            m = big
        v = self.rng.randint(min(low, m), m)
        self.out += struct.pack('<' + INT[kind], v)
        return v

    def deferred_count(self, kind, name):
        self.patch[name] = (len(self.out), kind)
        self.out += struct.pack('<' + INT[kind], 0)
        return 400

    def fill(self, name, v):
        p, kind = self.patch[name]
        b = struct.pack('<' + INT[kind], v)
        self.out[p:p + len(b)] = b

    def _put(self, u):
        n = 1
        while n < 9 and u >> (7 * n):
            n += 1
        ln = n
        if self.rng.random() < 0.15:
            ln = self.rng.randint(n, 9)
        self.out += enc_uvarint(u, length=ln)

    def uvarint(self, g=None, bits=64):
        rng = self.rng
        if g is not None and not isinstance(g, int) and len(g) and rng.random() < .9:
            u = rng.choice(g)
        else:
            u = rng.getrandbits(rng.choice([1, 7, 8, 14, 15, 21, 28, 31, 32, 35, 42, 49, 56, 57, 63, 64])) % (1 << bits)
        self._put(u)
        return u

    def varint(self, g=None):
        rng = self.rng
        if isinstance(g, int):
            v = rng.getrandbits(rng.choice([1, 6, 7, 8, 14, 20, 30, g - 1]))
            v = v if rng.random() < .7 else -v
        elif g is not None and len(g) and rng.random() < .9:
            v = rng.choice(g)
        else:
            v = unzz(rng.getrandbits(rng.choice([1, 7, 8, 14, 21, 28, 32, 35, 42, 49, 56, 63, 64])))
        self._put(zz(v))
        return v

    def vcount(self, **kw):
        v = self.rng.randint(0, self.maxcount)
        self._put(zz(v))
        return v

    def uvcount(self, **kw):
        v = self.rng.randint(0, self.maxcount)
        self._put(v)
        return v

    def arr(self, dt, n, g=None):
        self.need(0 <= n < 10000)
        d = np.dtype('<' + dt if dt[0] in 'iuf' else '?')
        if dt == 'b1':
            g = (0, 1)
        return np.array([self._num(dt, g) for _ in range(n)], dtype=d)

    def uvarints(self, n, bits=64, g=None):
        return np.array([self.uvarint(g, bits) for _ in range(n)], dtype='u8')

    def varints(self, n, g=None):
        return np.array([self.varint(g) for _ in range(n)], dtype='i8')

    def varints2(self, n, m, g=None):
        return self.varints(n * m, g).reshape(n, m)

    def ascii(self, choices):
        b = self.rng.choice(choices)
        self.out.append(b)
        return chr(b)

    def utf8(self):
        s = ''.join(self.rng.choice('abcXYZ 09_\u00e9\u03bb\u20ac') for _ in range(self.rng.randint(0, 6)))
        b = s.encode('utf-8')
        self.out += struct.pack('<h', len(b)) + b
        return s

    def table(self, fields, n, g=None):
        self.need(0 <= n < 10000)
        cols = {k: [] for k, _ in fields}
        for _ in range(n):
            for k, t in fields:
                cols[k].append(self._num(t, (g or {}).get(k)))
        return {k: np.array(cols[k], dtype='<' + t) for k, t in fields}

    def delta(self):
        rng = self.rng
        u = rng.getrandbits(rng.choice([1, 6, 7, 8, 13, 14, 15, 20, 21, 22, 27, 28, 29, 31, 32, 33, 34, 35]))
        n = 1
        while u >> (7 * n):
            n += 1
        if rng.random() < .1:
            n = rng.randint(n, 5)
        self.out += enc_uvarint(u, length=n)
        return unzz(u)

    def diff(self, n, m):
        self.need(0 <= n * m < 5000 and n >= 0 and m >= 0)
        out = np.zeros((n, m), 'u4')
        for i in range(n):
            v = 0
            for j in range(m):
                v += self.delta()
                out[i, j] = v % 2 ** 32
        return out

    def subobject(self, etype):
        rng = self.rng
        w = etype | rng.getrandbits(1) << 16 | rng.randint(0, 3) << 20
        ext = rng.random() < .2
        if ext:
            w |= 1 << 17
        self.out += struct.pack('<Ii', w, rng.randint(-5, 5))
        p = len(self.out)
        self.out += struct.pack('<I', 0)
        if ext:
            self.out += struct.pack('<I', 0)
        self.root.subs.append((p, len(self.out)))
        return GenReader(rng, self.maxcount, self.out, self.root)

    def finish(self):
        for p, start in self.subs:
            self.out[p:p + 4] = struct.pack('<I', len(self.out) - start)
        if self.trailing and not self.subs and self.rng.random() < .3:
            self.out += bytes(self.rng.randrange(256) for _ in range(self.rng.randint(1, 12)))
        return bytes(self.out)


# ---------------------------------------------------------------- X
class AnyDt:
    """array whose number type the format leaves open"""
    def __init__(self, a):
        self.a = a


class Rec:
    def __init__(self, cols):
        self.cols = cols


class Select:
    def __init__(self, cols, mask, keep):
        self.cols = [(k, a[mask] if keep else a[~mask]) for k, a in cols]


class X:
    @staticmethod
    def small(n):
        return int(n)

    @staticmethod
    def full(dt, shape, v):
        if int(np.prod(shape)) > 2000000 or any(s > 2 ** 31 for s in shape):
            raise SpecUndefined()
        return np.full(shape, v, dtype=dt)

    @staticmethod
    def lam(dt, shape, fn):
        out = np.zeros(shape, dtype=dt)
        for ix in np.ndindex(*shape):
            out[ix] = fn(*[int(i) for i in ix])
        return out

    anydt = AnyDt

    @staticmethod
    def squeeze_last(a):
        return a[..., 0] if a.shape[-1] == 1 else a

    @staticmethod
    def reshape3(a, *shape):
        return a.reshape(shape)

    @staticmethod
    def cast(dt, a):
        return a.astype(dt)

    @staticmethod
    def hexstr(i):
        return hex(i)

    @staticmethod
    def fmul32(a, b):
        return np.float32(a) * np.float32(b)

    @staticmethod
    def fdiv32(a, b):
        return np.float32(a) / np.float32(b)

    @staticmethod
    def fpow32(a, b):
        return np.power(np.full(1, a, 'f4'), np.full(1, b, 'f4'))[0]

    @staticmethod
    def fclip32(a, lo, hi):
        return np.float32(lo) if a < lo else np.float32(hi) if a > hi else a

    @staticmethod
    def feq(a, b):
        return bool(np.float32(a) == np.float32(b))

    @staticmethod
    def i2f32(i):
        return np.float32(i)

    @staticmethod
    def c32(v):
        return (v + 2 ** 31) % 2 ** 32 - 2 ** 31

    @staticmethod
    def all_zero(a):
        return not np.any(a)

    @staticmethod
    def any_true(a):
        return bool(np.any(a))

    @staticmethod
    def record(*cols):
        return Rec(list(cols))

    @staticmethod
    def select(cols, mask, keep):
        return Select(cols, mask, keep)

    @staticmethod
    def column(t, k, n):
        return t[:, k].copy()

    @staticmethod
    def padded(b, n):
        return b + bytes(n - len(b))

    @staticmethod
    def joined(lines, sep):
        return b''.join(ln + sep for ln in lines)

    @staticmethod
    def bytelen(s):
        return len(s.encode('utf-8'))

    @staticmethod
    def adc_items(n):
        return [p | f for p in range(max(n, 1)) for f in (0, 0x2000, 0x6000, 0x8000)]

    @staticmethod
    def ext(name, data, *args):
        import corsikaio.subblocks as sb
        try:
            if name in ('parse_run_header', 'parse_event_header'):
                return getattr(sb, name)(data)[0]
            if name == 'parse_event_end':
                return sb.parse_event_end(data, version=args[0])
            return getattr(sb, name)(data)
        except Exception:
            raise SpecUndefined()


def load():
    import os
    g = {'X': X, '__name__': 'specs.blocks_native'}
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'blocks.py')
    exec(compile(open(p).read(), p, 'exec'), g)
    return g


# ---------------------------------------------------------------- comparison
def diffval(got, exp, path=''):
    """None or a description of the first difference"""
    if isinstance(exp, AnyDt):
        return diffval(got, exp.a, path) if not isinstance(got, np.ndarray) else _diffarr(got, exp.a, path, False)
    if isinstance(exp, (Rec, Select)):
        if not isinstance(got, np.ndarray) or got.dtype.names is None:
            return '%s: expected a record array, got %s' % (path, type(got).__name__)
        if list(got.dtype.names) != [k for k, _ in exp.cols]:
            return '%s: fields %r, expected %r' % (path, got.dtype.names, [k for k, _ in exp.cols])
        for k, a in exp.cols:
            d = diffval(np.asarray(got[k]), a, path + '.' + k)
            if d:
                return d
        return None
    if isinstance(exp, dict):
        if not isinstance(got, dict):
            return '%s: expected dict, got %s' % (path, type(got).__name__)
        ke, kg = list(exp), list(got)
        for k in ke:
            if k not in got:
                return '%s: key %r missing' % (path, k)
        for k in kg:
            if k not in exp:
                return '%s: unexpected key %r' % (path, k)
        for k in ke:
            d = diffval(got[k], exp[k], '%s[%r]' % (path, k))
            if d:
                return d
        return None
    if isinstance(exp, (tuple, list)):
        if not isinstance(got, (tuple, list)):
            return '%s: expected sequence, got %s' % (path, type(got).__name__)
        if isinstance(exp, tuple) and not isinstance(got, tuple):
            return '%s: expected tuple, got %s' % (path, type(got).__name__)
        if len(got) != len(exp):
            return '%s: length %d, expected %d' % (path, len(got), len(exp))
        for i, (a, b) in enumerate(zip(got, exp)):
            d = diffval(a, b, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    if isinstance(exp, np.ndarray):
        return _diffarr(got, exp, path, True)
    if exp is None:
        return None if got is None else '%s: %r, expected None' % (path, got)
    if isinstance(exp, str):
        return None if isinstance(got, str) and got == exp else '%s: %r, expected %r' % (path, got, exp)
    if isinstance(exp, (bytes, bytearray)):
        return None if isinstance(got, (bytes, bytearray)) and bytes(got) == bytes(exp) else \
            '%s: %r, expected %r' % (path, got, exp)
    if isinstance(exp, np.void) or (isinstance(exp, np.generic) and exp.dtype.names):
        if not isinstance(got, np.void) or got.dtype != exp.dtype or got.tobytes() != exp.tobytes():
            return '%s: record differs' % path
        return None
    if isinstance(exp, (bool, int, float, np.generic)):
        try:
            if isinstance(got, np.ndarray) and got.shape != ():
                return '%s: array of shape %r, expected a number' % (path, got.shape)
            if isinstance(got, (str, bytes, tuple, list, dict)) or got is None:
                return '%s: %r, expected %r' % (path, got, exp)
            if got != got and exp != exp:
                return None
            return None if bool(got == exp) else '%s: %r, expected %r' % (path, got, exp)
        except Exception as ex:
            return '%s: %r' % (path, ex)
    return None if got == exp else '%s: %r, expected %r' % (path, got, exp)


def _diffarr(got, exp, path, strict):
    import array
    if isinstance(got, array.array):
        got = np.array(got, dtype=got.typecode)
    if not isinstance(got, np.ndarray):
        return '%s: expected array, got %s' % (path, type(got).__name__)
    if got.shape != exp.shape:
        return '%s: shape %r, expected %r' % (path, got.shape, exp.shape)
    if strict and (got.dtype.kind != exp.dtype.kind or got.dtype.itemsize != exp.dtype.itemsize):
        return '%s: number type %s, expected %s' % (path, got.dtype, exp.dtype)
    a, b = np.asarray(got), exp
    with np.errstate(all='ignore'):
        same = (a == b)
        if a.dtype.kind == 'f' and b.dtype.kind == 'f':
            same = same | ((a != a) & (b != b))
    if not np.all(same):
        ix = tuple(int(q) for q in np.argwhere(~same)[0])
        return '%s%r: %r, expected %r' % (path, list(ix), a[ix], b[ix])
    return None


# ---------------------------------------------------------------- real objects
def get_class(path):
    import importlib
    import eventio.simtel  # noqa
    m, c = path.split(':')
    return getattr(importlib.import_module(m), c)


def make_header(etype, version, id_, size, address):
    from eventio.header import parse_header_bytes
    w = (etype & 0xffff) | (version & 0xfff) << 20
    b = struct.pack('<IiI', w, id_, size & 0x3fffffff)
    h = parse_header_bytes(b, toplevel=True)
    h.content_address = address
    h.content_size = size
    return h


def make_object(path, h, payload, prefix=b'\x5a' * 16, suffix=b'\xa5' * 24):
    import io
    cls = get_class(path)
    hd = make_header(h.type, h.version, h.id, len(payload), len(prefix))
    f = io.BytesIO(prefix + payload + suffix)
    f.seek(len(prefix))
    return cls(hd, f)


def gen_hdr(rng, spec):
    cls = get_class(spec['path'])
    v = rng.choice(spec['versions'])
    i = rng.choice([0, 1, 2, 7, 100, 255, -1, rng.getrandbits(31), -rng.getrandbits(31)])
    et = cls.eventio_type
    tel = None
    k = spec['ids']
    if k == 'tracking':
        tel = rng.choice([0, 1, 5, 99, 100, 105, 255, 256, 512, 755, 999, rng.randrange(1000)])
        i = (tel & 0xff) | (tel >> 8) << 24 | rng.randint(1, 3) << 8 | rng.getrandbits(1) << 12
        et = 2100 + tel % 100 + 1000 * (tel // 100)
    elif k == 'adc':
        i = rng.choice([0, 1, 2, 0, 1, 2, 1, 2, 3]) | rng.choice([0] * 9 + [1]) << 5 | rng.choice([0] * 9 + [1]) << 10 | rng.getrandbits(10) << 12
    elif k == 'photons':
        i = rng.choice([999999, 1, 2003, 999, 5000, 999000])
    elif spec['name'] in ('ImageParameters',):
        i = rng.getrandbits(31) if rng.random() < .8 else -rng.getrandbits(31)
    elif spec['name'] == 'StereoReconstruction':
        i = rng.getrandbits(12)
    elif spec['name'] == 'CameraMonitoring':
        i = (rng.getrandbits(7) << 8) | rng.getrandbits(8) | rng.getrandbits(6) << 24 | rng.getrandbits(8) << 16
    elif spec['name'] == 'PixelList':
        i = rng.choice([0, 1000005, 5, 2000123, 1234567])
    return Hdr(type=et, version=v, id=i, tel=tel, content_size=None)


def generate(spec, rng, maxcount=4, tries=30):
    for _ in range(tries):
        h = gen_hdr(rng, spec)
        r = GenReader(rng, maxcount)
        try:
            spec['fn'](r, h)
        except SpecUndefined:
            continue
        except SpecRaise:
            r.out += bytes(rng.randrange(256) for _ in range(40))
        p = r.finish()
        h.content_size = len(p)
        return h, p
    return None


def expected(spec, h, payload):
    """('value', v) | ('raise', kind) | None (outside the domain)"""
    r = Reader(payload)
    try:
        with np.errstate(all='ignore'):
            return 'value', spec['fn'](r, h)
    except SpecUndefined:
        return None
    except SpecRaise as e:
        return 'raise', e.kind


def check_one(spec, h, payload, obj=None):
    """None if the real code agrees with the specification"""
    import warnings
    exp = expected(spec, h, payload)
    if exp is None:
        return None
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            o = obj if obj is not None else make_object(spec['path'], h, payload)
            got = o.parse()
    except Exception as ex:
        if exp[0] == 'raise' and exp[1] in [c.__name__ for c in type(ex).__mro__]:
            return None
        return '%s: %s (expected %s)' % (type(ex).__name__, ex, 'a result' if exp[0] == 'value' else exp[1])
    if exp[0] == 'raise':
        return 'accepted, expected %s' % exp[1]
    return diffval(got, exp[1], spec['name'])
