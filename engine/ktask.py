"""Tasks for the kernel contracts: proof, replay of counterexamples on the real compiled code, random cross-check."""
import io
import random
import struct
import time
import numpy as np
from . import kernel, fn, runner


def mods():
    from . import native_env
    native_env.setup()
    import eventio.var_int as vi
    import eventio.header as hd
    import eventio.base as base
    import eventio.tools as tools
    return vi, hd, base, tools


class End(Exception):
    pass


def uv(data, p):
    """(value, length) of the encoding at p by definition; None if it does not lie inside data"""
    if p >= len(data):
        return None
    b = data[p]
    n = 1
    while n < 9 and (b << (n - 1)) & 0x80:
        n += 1
    if p + n > len(data):
        return None
    v = b & (0xff >> n)
    for x in data[p + 1:p + n]:
        v = v << 8 | x
    return v, n


def unzz(u):
    return -(u >> 1) - 1 if u & 1 else u >> 1


def call(f, *a, **k):
    try:
        return ('ok', f(*a, **k))
    except Exception as x:
        return ('exc', x)


def exc_is(r, *names):
    return r[0] == 'exc' and any(c.__name__ in names for c in type(r[1]).__mro__)


def show(r):
    return repr(r[1])[:120] if r[0] == 'ok' else 'raises %r' % r[1]


def mism(what, got, exp):
    return '%s: got %s, expected %s' % (what, show(got), exp)


def check_varints(data, offset, n):
    """all readers of variable-length integers on one input"""
    vi, hd, base, tools = mods()
    out = []
    L = len(data)
    one = uv(data, offset)
    if offset < L:
        e = uv(data[offset:offset + 1] + bytes(9), 0)[1]
        r = call(vi.get_length_of_varint, data[offset])
        if r != ('ok', e):
            return mism('get_length_of_varint(%#x)' % data[offset], r, e)
    r = call(vi.parse_varint, data[offset:])
    if one is None:
        if not exc_is(r, 'EOFError'):
            return mism('parse_varint(%r)' % data[offset:], r, 'EOFError')
    elif r != ('ok', one[0]):
        return mism('parse_varint(%r)' % data[offset:], r, one[0])
    for f, conv in ((vi.unsigned_varint, lambda u: u), (vi.varint, unzz)):
        r = call(f, data, offset)
        w = '%s(%r, %d)' % (f.__name__, data, offset)
        if one is None:
            if r[0] != 'exc':
                return mism(w, r, 'an error')
        elif r != ('ok', (conv(one[0]), one[1])):
            return mism(w, r, (conv(one[0]), one[1]))
    vals, p = [], offset
    for _ in range(n):
        q = uv(data, p)
        if q is None:
            vals = None
            break
        vals.append(q[0])
        p += q[1]
    for f, conv, dt in ((vi.unsigned_varint_array, lambda u: u, 'u8'), (vi.varint_array, unzz, 'i8')):
        r = call(f, data, n, offset)
        w = '%s(%r, %d, %d)' % (f.__name__, data, n, offset)
        if vals is None:
            if r[0] != 'exc':
                return mism(w, r, 'an error')
            continue
        exp = [conv(v) for v in vals]
        if r[0] != 'ok' or r[1][0].dtype != np.dtype(dt) or r[1][0].shape != (n,) or r[1][0].tolist() != exp or \
                r[1][1] != p - offset:
            return mism(w, r, (exp, p - offset))
    for f, conv in ((tools.read_unsigned_varint, lambda u: u), (tools.read_varint, unzz)):
        s = io.BytesIO(data)
        s.seek(offset)
        r = call(f, s)
        w = '%s(%r at %d)' % (f.__name__, data, offset)
        if one is None:
            if r[0] != 'exc':
                return mism(w, r, 'an error')
        elif r != ('ok', conv(one[0])) or s.tell() != offset + one[1]:
            return mism(w, r, (conv(one[0]), 'position', offset + one[1]))
    return None


def check_diff(data, offset, n, m):
    vi, hd, base, tools = mods()
    p = offset
    out = np.zeros((n, m), 'u4')
    err = False
    for i in range(n):
        v = 0
        for j in range(m):
            q = uv(data, p)
            if p < len(data) and data[p] >= 0xf8:
                return None
            if q is None:
                err = True
                break
            v += unzz(q[0])
            out[i, j] = v % 2 ** 32
            p += q[1]
        if err:
            break
    r = call(vi.unsigned_varint_arrays_differential, data, n, m, offset)
    w = 'unsigned_varint_arrays_differential(%r, %d, %d, %d)' % (data, n, m, offset)
    if err:
        return None if r[0] == 'exc' else mism(w, r, 'an error')
    if r[0] != 'ok' or r[1][0].shape != (n, m) or r[1][0].dtype != np.dtype('u4') or not (r[1][0] == out).all() or \
            r[1][1] != p - offset:
        return mism(w, r, (out.tolist(), p - offset))
    return None


def header_of(data, top):
    w, i, ln = struct.unpack('<IiI', data[:12])
    d = dict(type=w & 0xffff, version=w >> 20, user=bool(w >> 16 & 1), extended=bool(w >> 17 & 1), id=i,
             only_subobjects=bool(ln >> 30 & 1), content_size=ln & 0x3fffffff)
    d['header_size'] = 12 + (4 if top else 0) + (4 if d['extended'] else 0)
    return d


def check_header(data, offset, top):
    """data: bytes after the sync marker; offset: address of the object"""
    vi, hd, base, tools = mods()
    r = call(hd.parse_header_bytes, data[:12], top)
    if len(data) < 12:
        if not exc_is(r, 'EOFError'):
            return mism('parse_header_bytes(%r)' % data[:12], r, 'EOFError')
        r = call(base.read_header, io.BytesIO(data), offset, top)
        if not exc_is(r, 'EOFError'):
            return mism('read_header(%r)' % data, r, 'EOFError')
        return None
    d = header_of(data, top)

    def diff(h, d):
        for k, v in d.items():
            g = getattr(h, k)
            if g != v or isinstance(v, bool) and bool(g) != v:
                return '%s: got %r, expected %r' % (k, g, v)
        if h.total_size != h.header_size + d['content_size']:
            return 'total_size: got %r' % h.total_size
    if r[0] != 'ok':
        return mism('parse_header_bytes(%r)' % data[:12], r, d)
    x = diff(r[1], d)
    if x:
        return 'parse_header_bytes(%r): %s' % (data[:12], x)
    for bad in (data[:11], data[:12] + b'\0'):
        r = call(hd.parse_header_bytes, bad, top)
        if not exc_is(r, 'EOFError'):
            return mism('parse_header_bytes(%d bytes)' % len(bad), r, 'EOFError')
    s = io.BytesIO(data)
    r = call(base.read_header, s, offset, top)
    if d['extended'] and len(data) < 16:
        if not exc_is(r, 'EOFError'):
            return mism('read_header(%r)' % data, r, 'EOFError')
        return None
    if d['extended']:
        d['content_size'] += (struct.unpack('<I', data[12:16])[0] & 0xfff) << 30
    d['content_address'] = offset + d['header_size']
    if r[0] != 'ok':
        return mism('read_header(%r)' % data, r, d)
    x = diff(r[1], d)
    if x:
        return 'read_header(%r, %d, %s): %s' % (data, offset, top, x)
    if s.tell() != (16 if d['extended'] else 12):
        return 'read_header(%r): position %d afterwards' % (data, s.tell())
    return None


def check_word(word, n, first):
    vi, hd, base, tools = mods()
    r = call(hd.get_bits_from_word, word, n, first)
    if r != ('ok', word >> first & ((1 << n) - 1)):
        return mism('get_bits_from_word(%#x, %d, %d)' % (word, n, first), r, word >> first & ((1 << n) - 1))
    r = call(hd.bool_bit_from_pos, word, first)
    if r[0] != 'ok' or bool(r[1]) != bool(word >> first & 1):
        return mism('bool_bit_from_pos(%#x, %d)' % (word, first), r, bool(word >> first & 1))
    r = call(base.parse_extension_field, struct.pack('<I', word))
    if r != ('ok', (word & 0xfff) << 30):
        return mism('parse_extension_field(%#x)' % word, r, (word & 0xfff) << 30)
    return None


def check_sync(data):
    vi, hd, base, tools = mods()
    s = io.BytesIO(data)
    try:
        base.read_sync_marker(s)
        got = 'accepted at %d' % s.tell()
    except StopIteration:
        got = 'StopIteration'
    except (EOFError, NotImplementedError, ValueError) as x:
        got = type(x).__name__
    b = data[:4]
    exp = 'StopIteration' if not b else 'EOFError' if len(b) < 4 else 'accepted at 4' if b == b'\x37\x8a\x1f\xd4' else \
        'NotImplementedError' if b == b'\xd4\x1f\x8a\x37' else 'ValueError'
    return None if got == exp else 'read_sync_marker(%r): %s, expected %s' % (data, got, exp)


PRIM = {'read_short': 'h', 'read_unsigned_short': 'H', 'read_int': 'i', 'read_unsigned_int': 'I', 'read_float': 'f',
        'read_double': 'd', 'read_time': 'ii'}


def eqbits(a, b):
    if isinstance(b, tuple):
        return isinstance(a, tuple) and len(a) == len(b) and all(eqbits(x, y) for x, y in zip(a, b))
    if isinstance(b, float):
        return isinstance(a, float) and struct.pack('<d', a) == struct.pack('<d', b)
    return type(a) is type(b) and a == b


def check_prim(data, p, n):
    vi, hd, base, tools = mods()

    def run(f, *a):
        s = io.BytesIO(data)
        s.seek(p)
        r = call(f, s, *a)
        return r, s.tell()
    rest = data[p:]
    for nm, fm in PRIM.items():
        k = struct.calcsize('<' + fm)
        r, q = run(getattr(tools, nm))
        if len(rest) < k:
            if r[0] != 'exc':
                return mism('%s(%r)' % (nm, rest), r, 'an error')
            continue
        e = struct.unpack('<' + fm, rest[:k])
        e = e if len(fm) > 1 else e[0]
        if r[0] != 'ok' or not eqbits(r[1], e) or q != p + k:
            return mism('%s(%r), position %d' % (nm, rest[:k], q - p), r, (e, k))
    r, q = run(tools.read_ints, n)
    if len(rest) >= 4 * n:
        e = struct.unpack('<%di' % n, rest[:4 * n])
        if r[0] != 'ok' or tuple(r[1]) != e or q != p + 4 * n:
            return mism('read_ints(%r, %d)' % (rest, n), r, e)
    for dt in kernel.DT:
        k = np.dtype(dt).itemsize
        r, q = run(tools.read_array, dt, n)
        w = 'read_array(%r, %s, %d)' % (rest, dt, n)
        if len(rest) < k * n:
            if r[0] != 'exc':
                return mism(w, r, 'an error')
            continue
        e = np.frombuffer(rest[:k * n], dtype='<' + dt) if n else np.zeros(0, dt)
        if r[0] != 'ok' or r[1].dtype != np.dtype(dt) or r[1].shape != (n,) or r[1].tobytes() != e.tobytes() or q != p + k * n:
            return mism(w, r, e)
    for nm in ('read_string', 'read_var_string'):
        r, q = run(getattr(tools, nm))
        if nm == 'read_string':
            h = None if len(rest) < 2 else (struct.unpack('<h', rest[:2])[0], 2)
            if h is not None and h[0] < 0:
                continue
        else:
            h = uv(rest, 0)
        w = '%s(%r)' % (nm, rest)
        if h is None or h[1] + h[0] > len(rest):
            if r[0] != 'exc':
                return mism(w, r, 'an error')
            continue
        if r != ('ok', rest[h[1]:h[1] + h[0]]) or q != p + h[1] + h[0]:
            return mism(w + ' position %d' % (q - p), r, rest[h[1]:h[1] + h[0]])
    return None


CHECK = dict(varints=check_varints, diff=check_diff, header=check_header, word=check_word, sync=check_sync, prim=check_prim)


def replay(r):
    a = {k: bytes.fromhex(v) if k == 'data' else v for k, v in r['args'].items()}
    return CHECK[r['check']](**a)


def mkcase(check, **args):
    return dict(kind='kernel', check=check, args={k: v.hex() if isinstance(v, bytes) else v for k, v in args.items()})


# ---------------------------------------------------------------- counterexamples of the verifier
def fillings(c, buf='P'):
    n = min(c.get(buf + '.len', 0), 5000)
    d = c.get('bytes', {}).get(buf, {})
    for fill in (0, 1, 0xff, None):
        rng = random.Random(5)
        b = bytearray(rng.randrange(256) if fill is None else fill for _ in range(n))
        for k, v in d.items():
            if int(k) < n:
                b[int(k)] = v
        yield bytes(b)


def confirm_for(unit):
    def f(c):
        if unit in ('u_length',):
            yield mkcase('varints', data=bytes([c['byte']]) + bytes(9), offset=0, n=1)
        elif unit in ('u_bit', 'u_bits'):
            yield mkcase('word', word=c['word'], n=c.get('n', 1), first=c.get('first', c.get('pos', 0)))
        else:
            for b in fillings(c):
                if unit in ('u_parse', 'u_single', 'u_array', 'u_varint_stream'):
                    o = c.get('offset', c.get('p', 0))
                    for n in {min(c.get('n', 1), 200), 1}:
                        yield mkcase('varints', data=b, offset=o if o < 1 << 40 else 0, n=n)
                elif unit in ('u_diff_row', 'u_diff_all'):
                    yield mkcase('diff', data=b, offset=c.get('offset', 0), n=min(c.get('n', 1), 50), m=min(c.get('m', 1), 50))
                elif unit in ('u_parse_header', 'u_read_header'):
                    b = b[c.get('p', 0):]
                    for top in (0, 1):
                        yield mkcase('header', data=b, offset=c.get('off', 0), top=top)
                elif unit == 'u_sync':
                    yield mkcase('sync', data=b[c.get('p', 0):])
                elif unit == 'u_extension':
                    yield mkcase('word', word=int.from_bytes((b + bytes(4))[:4], 'little'), n=1, first=0)
                else:
                    yield mkcase('prim', data=b, p=min(c.get('p', 0), len(b)), n=min(c.get('n', 1), 50))
    return f


# ---------------------------------------------------------------- random inputs
from specs.native import enc_uvarint


def rvar(rng):
    u = rng.getrandbits(rng.choice([1, 7, 8, 14, 15, 21, 22, 28, 29, 32, 35, 36, 42, 49, 50, 56, 57, 63, 64]))
    n = 1
    while n < 9 and u >> (7 * n):
        n += 1
    return enc_uvarint(u, length=rng.randint(n, 9) if rng.random() < .3 else n)


def rdelta(rng):
    u = rng.getrandbits(rng.choice([1, 6, 7, 8, 13, 14, 15, 20, 21, 22, 27, 28, 29, 31, 32, 33, 34, 35]))
    n = 1
    while u >> (7 * n):
        n += 1
    return enc_uvarint(u, length=rng.randint(n, 5) if rng.random() < .2 else n)


def gen_varints(rng):
    n = rng.choice([0, 1, 2, 3, 5, 17])
    pre = bytes(rng.randrange(256) for _ in range(rng.choice([0, 0, 1, 3, 8])))
    d = pre + b''.join(rvar(rng) for _ in range(n)) + bytes(rng.randrange(256) for _ in range(rng.choice([0, 0, 2])))
    if rng.random() < .3:
        d = d[:rng.randint(0, len(d))]
    if rng.random() < .1:
        d = bytes(rng.randrange(256) for _ in range(rng.randint(0, 12)))
    return mkcase('varints', data=d, offset=len(pre), n=n if rng.random() < .8 else rng.randint(0, 20))


def gen_diff(rng):
    n, m = rng.choice([0, 1, 2, 3]), rng.choice([0, 1, 2, 5, 30])
    pre = bytes(rng.randrange(256) for _ in range(rng.choice([0, 0, 1, 3])))
    d = pre + b''.join(rdelta(rng) for _ in range(n * m)) + bytes(rng.randrange(256) for _ in range(rng.choice([0, 0, 3])))
    if rng.random() < .2:
        d = d[:rng.randint(0, len(d))]
    return mkcase('diff', data=d, offset=len(pre), n=n, m=m)


def gen_header(rng):
    k = rng.random()
    if k < .25:
        return mkcase('word', word=rng.getrandbits(32), n=rng.randint(0, 31), first=rng.randint(0, 31))
    if k < .4:
        b = rng.choice([b'\x37\x8a\x1f\xd4', b'\xd4\x1f\x8a\x37', b'\x37\x8a\x1f\xd5', b'\x37\x8b\x1f\xd4', bytes(rng.randrange(256) for _ in range(4))])
        b = (b + b'xy')[:rng.choice([0, 1, 3, 4, 6, 6, 6])]
        return mkcase('sync', data=b)
    w = rng.getrandbits(32)
    if rng.random() < .5:
        w ^= w & 1 << 17 if rng.random() < .5 else 0
    d = struct.pack('<III', w, rng.getrandbits(32), rng.getrandbits(32)) + bytes(rng.randrange(256) for _ in range(rng.choice([0, 2, 4, 4, 4, 8])))
    if rng.random() < .2:
        d = d[:rng.randint(0, len(d))]
    return mkcase('header', data=d, offset=rng.choice([0, 16, rng.getrandbits(20), rng.getrandbits(40)]), top=rng.randint(0, 1))


def gen_prim(rng):
    n = rng.choice([0, 1, 2, 7])
    k = rng.random()
    pre = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 4])))
    b = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 3, 8, 9, 64, 300])))
    if k < .3:
        b = struct.pack('<h', len(b)) + b + b'zz'
    elif k < .6:
        b = enc_uvarint(len(b), length=rng.randint(3, 9)) + b + b'zz'
    if rng.random() < .1:
        b = b[:-1 - rng.randrange(3)]
    return mkcase('prim', data=pre + b, p=len(pre), n=n)


GEN = dict(C01=gen_header, C02=gen_varints, C03=gen_diff, C24=gen_prim)


def search(prop, seconds, count, seed):
    import hashlib
    rng = random.Random('%s/%s' % (seed, prop))
    end = time.time() + seconds
    n = 0
    seen = set()
    while n < count and time.time() < end:
        c = GEN[prop](rng)
        if prop == 'C24' and rng.random() < .3:
            c = gen_varints(rng)
        n += 1
        seen.add(hashlib.sha1(repr(c).encode()).digest())
        x = fn.try_replay(c)
        if x:
            return dict(name='random input', text=x, confirmed=True, replay=c), n, len(seen)
    return None, n, len(seen)


def prove(prop, unit, kw, tier, seed):
    u = getattr(kernel, unit)(**kw)
    return fn.outcome_of(u, 150 if tier == 'quick' else 900, confirm_for(unit),
                         lambda: search(prop, 15 if tier == 'quick' else 60, 100000, seed))


def cross(prop, seconds, count, seed):
    f, n, d = search(prop, seconds, count, seed)
    o = runner.outcome('%s cross-check' % prop, status='tested', cases=n, distinct=d)
    if f:
        o['failures'] = [f]
        o['status'] = 'failed'
    return o


def tasks(prop, tier, seed):
    out = [('engine.ktask', 'prove', dict(prop=prop, unit=u, kw=kw, tier=tier, seed=seed)) for u, kw in kernel.UNITS[prop]]
    for k in range(2 if tier == 'quick' else 8):
        out.append(('engine.ktask', 'cross', dict(prop=prop, seconds=5 if tier == 'quick' else 120,
                                                  count=40000 if tier == 'quick' else 10 ** 7, seed=seed * 100 + k)))
    return out
