"""Contracts of the lowest layer: the compiled readers (var_int.pyx, header.pyx), the header functions of base.py and
the primitive readers of tools.py, each verified against its definition by bytes."""
import numpy as np
from . import terms as t
from . import core, defs, contracts, cyfront, cops, shims, arrays
from . import values as V
from .core import Unsupported, SpecUndefined, SpecRaise, eng
from .values import SBytes, SymInt, SBytes, SByteArray, Heap, toT, mkint, mkbool, norm_bytes, as_sbytes
from .arrays import SArr, IX
from .fn import Unit, ANY
from .shims import Loader, mkmodule

MAXLEN = 1 << 42


def buffer(e, name='P'):
    L = t.var(name + '.len', 0, MAXLEN)
    return V.Buf(name, L), L


def data_of(W):
    return norm_bytes(SBytes([('b', W['buf'], t.ZERO, W['L'])]))


class Mod:
    """translated compiled module: bodies of its functions with the contracts of the functions they call"""
    def __init__(self, name, over=None):
        self.ld = Loader({})
        ov = dict(contracts.coverrides(name))
        if over:
            ov.update(over)
        self.py, self.raw, self.g, self.mt = cyfront.load(self.ld, cyfront.pyxpath(name), name, ov)
        self.sigs = cyfront.translate(cyfront.pyxpath(name), name)[2]

    def fn(self, nm):
        if nm not in self.sigs and nm not in self.raw:
            raise Unsupported('function %s not found' % nm)
        if nm in self.mt.errors:
            return self.raw[nm]
        kind, args, ret = self.sigs[nm]
        if kind == 'cdef':
            return self.raw[nm]
        return cops.pywrapper(nm, self.raw[nm], args, ret)


# ---------------------------------------------------------------- variable-length integers
def b_inputs(*names):
    def f(e):
        d = {'P.len': t.var('P.len', 0, MAXLEN)}
        for n in names:
            d[n] = t.var(n, 0, (1 << 64) - 1)
        return d
    return f


def vi_setup(*names):
    def f(e):
        buf, L = buffer(e)
        W = dict(buf=buf, L=L, m=Mod('eventio.var_int'))
        for n in names:
            W[n] = mkint(t.var(n, 0, (1 << 64) - 1))
        return W
    return f


def u_length():
    def spec(W):
        p = t.var('p', 0, MAXLEN)
        defs.expand('P', p)
        return mkint(defs.vl('P', p))
    return Unit('get_length_of_varint', vi_setup(), spec,
                lambda W: W['m'].fn('get_length_of_varint')(mkint(defs.byte('P', t.var('p', 0, MAXLEN)))),
                exc=ANY, kernel=True, inputs=lambda e: {'byte': defs.byte('P', t.var('p', 0, MAXLEN))})


def u_parse():
    def spec(W):
        if eng().decide(t.lt(t.ZERO, W['L'])):
            defs.expand('P', t.ZERO)
        return contracts.parse_varint(data_of(W))
    return Unit('parse_varint', vi_setup(), spec, lambda W: W['m'].fn('parse_varint')(data_of(W)), exc=('EOFError',),
                kernel=True, inputs=b_inputs())


def u_single(nm):
    def spec(W):
        return getattr(contracts, nm)(data_of(W), W['offset'])
    return Unit(nm, vi_setup('offset'), spec, lambda W: W['m'].fn(nm)(data_of(W), W['offset']), exc=ANY, kernel=True,
                inputs=b_inputs('offset'))


def u_array(nm):
    def spec(W):
        return getattr(contracts, nm)(data_of(W), W['n'], W['offset'])
    return Unit(nm, vi_setup('n', 'offset'), spec, lambda W: W['m'].fn(nm)(data_of(W), W['n'], W['offset']), exc=ANY,
                kernel=True, inputs=b_inputs('n', 'offset'))


# ---------------------------------------------------------------- differential arrays
def diff_row(W_or_none, data, output, offset=0):
    """contract of unsigned_varint_array_differential"""
    e = eng()
    P, s, ln = defs.single(data)
    off = toT(offset)
    m = output.shape_[0]
    if P is None:
        if not e.decide(t.eq0(m)):
            raise IndexError('Out of bounds on buffer access (axis 0)')
        return 0
    if not e.decide(t.lt(off, t.const(1 << 63))):
        if e.decide(t.eq0(m)):
            return 0
        raise IndexError('Out of bounds on buffer access (axis 0)')
    p = t.add(s, off)
    end = defs.pv(P, p, m, 'PD@')
    if not e.decide(t.bor(t.eq0(m), t.le(end, t.add(s, ln)))):
        raise IndexError('Out of bounds on buffer access (axis 0)')
    if isinstance(output, cops.RowView):
        base, pre = output.base, list(output.prefix)
    else:
        base, pre = output, []
    k = len(pre)
    el = t.mod(defs.ds(P, p, t.addc(IX[k], 1)), 1 << 32)
    base.write([('i', x) for x in pre] + [('s', t.ZERO, m, k)], el)
    return mkint(t.sub(end, p))


def u_diff_row():
    def setup(e):
        buf, L = buffer(e)
        off = t.var('offset', 0, (1 << 64) - 1)
        m = t.var('m', 0, (1 << 40) - 1)
        e.diffpos = off
        e.hints.append(hint)
        return dict(buf=buf, L=L, m=Mod('eventio.var_int'), off=off, n=m)

    def hint(ind, t0, t1):
        from .loops import Binding
        e = eng()
        d = e.diffpos
        if e.side == 'spec':
            return
        if t0 is t.ZERO:
            yield Binding(lambda x: t.sub(t.app('PD@P', (d, x)), d), 'pd')
            yield Binding(lambda x: defs.ds('P', d, x), 'ds')
        elif t0 is d:
            yield Binding(lambda x: t.app('PD@P', (d, x)), 'pd')

    def out(W):
        return arrays.uninit((mkint(W['n']),), np.dtype('u4'))

    def spec(W):
        e = eng()
        # domain: first bytes of every delta are below 0xf8
        o = out(W)
        loop_valid(W['off'], W['n'])
        r = diff_row(None, data_of(W), o, mkint(W['off']))
        return o, r

    def code(W):
        o = out(W)
        r = W['m'].fn('unsigned_varint_array_differential')(data_of(W), output=o, offset=mkint(W['off']))
        return o, r
    return Unit('unsigned_varint_array_differential', setup, spec, code, exc=ANY, kernel=True,
                inputs=lambda e: {'P.len': t.var('P.len', 0, MAXLEN), 'offset': t.var('offset', 0, (1 << 64) - 1),
                                  'm': t.var('m', 0, (1 << 40) - 1)})


def loop_valid(off, n):
    """facts for every iteration: the definition of the delta at its position (by cases on the first byte); bytes
    beyond the end of the buffer are arbitrary"""
    from . import loops

    def body(i):
        k = toT(i)
        p = t.app('PD@P', (off, k))
        defs.expand_delta('P', p)
    loops.for_(loops.SymRange(t.ZERO, n, 1), body)


def u_diff_all():
    def setup(e):
        buf, L = buffer(e)
        off = t.var('offset', 0, (1 << 64) - 1)
        n = t.var('n', 0, (1 << 40) - 1)
        m = t.var('m', 0, (1 << 40) - 1)
        e._assume(t.lt(t.mul(n, m), t.const(1 << 60)))

        def hint(ind, t0, t1):
            from .loops import Binding
            if eng().side == 'spec':
                return
            if t0 is t.ZERO or t0 is off:
                k = t.sub(t0, off)
                yield Binding(lambda x: t.add(defs.pv('P', off, t.mul(x, m), 'PD@'), k), 'pd')
        e.hints.append(hint)
        return dict(buf=buf, L=L, off=off, n=n, mm=m,
                    m=Mod('eventio.var_int', {'unsigned_varint_array_differential': lambda data, output, offset=0: diff_row(None, data, output, offset)}))

    def spec(W):
        return contracts.unsigned_varint_arrays_differential(data_of(W), mkint(W['n']), mkint(W['mm']), mkint(W['off']))

    def code(W):
        return W['m'].fn('unsigned_varint_arrays_differential')(data_of(W), mkint(W['n']), mkint(W['mm']), mkint(W['off']))
    return Unit('unsigned_varint_arrays_differential', setup, spec, code, exc=ANY, kernel=True,
                inputs=lambda e: {'P.len': t.var('P.len', 0, MAXLEN), 'offset': t.var('offset', 0, (1 << 64) - 1),
                                  'n': t.var('n', 0, (1 << 40) - 1), 'm': t.var('m', 0, (1 << 40) - 1)})


# ---------------------------------------------------------------- headers
def u_bit():
    def setup(e):
        return dict(m=Mod('eventio.header'), w=t.var('word', 0, (1 << 32) - 1), p=t.var('pos', 0, 31))
    return Unit('bool_bit_from_pos', setup, lambda W: contracts.bool_bit_from_pos(mkint(W['w']), mkint(W['p'])),
                lambda W: W['m'].fn('bool_bit_from_pos')(mkint(W['w']), mkint(W['p'])),
                inputs=lambda e: {'word': t.var('word', 0, (1 << 32) - 1), 'pos': t.var('pos', 0, 31)})


def u_bits():
    def setup(e):
        return dict(m=Mod('eventio.header'), w=t.var('word', 0, (1 << 32) - 1), n=t.var('n', 0, 31), f=t.var('first', 0, 31))
    return Unit('get_bits_from_word', setup,
                lambda W: contracts.get_bits_from_word(mkint(W['w']), mkint(W['n']), mkint(W['f'])),
                lambda W: W['m'].fn('get_bits_from_word')(mkint(W['w']), mkint(W['n']), mkint(W['f'])),
                inputs=lambda e: {'word': t.var('word', 0, (1 << 32) - 1), 'n': t.var('n', 0, 31), 'first': t.var('first', 0, 31)})


FIELDS = ('id', 'type', 'version', 'user', 'extended', 'only_subobjects', 'header_size', 'content_size')


def fields(h, extra=()):
    return tuple(getattr(h, k) for k in FIELDS + tuple(extra))


def u_parse_header():
    def setup(e):
        buf, L = buffer(e)
        return dict(buf=buf, L=L, m=Mod('eventio.header', HEADER_CONTRACTS), tl=t.var('toplevel', 0, 1))

    def tl(W):
        return mkbool(t.eq(W['tl'], t.ONE))

    def spec(W):
        d = data_of(W)
        top = bool(tl(W))
        return fields(contracts.parse_header_bytes(d, top))

    def code(W):
        return fields(W['m'].fn('parse_header_bytes')(data_of(W), tl(W)))
    return Unit('parse_header_bytes', setup, spec, code, exc=('EOFError',), kernel=True,
                inputs=lambda e: {'P.len': t.var('P.len', 0, MAXLEN), 'toplevel': t.var('toplevel', 0, 1)})


HEADER_CONTRACTS = {'bool_bit_from_pos': contracts.bool_bit_from_pos, 'get_bits_from_word': contracts.get_bits_from_word}


class Stream(Heap):
    """file-like object over the bytes of a buffer, at any position: read(n) returns the next min(n, rest) bytes"""
    __hash__ = None

    def __init__(self, buf, L, pos):
        self._register()
        self.buf, self.L = buf, L
        self.pos = mkint(pos)

    def _slots(self):
        return {'pos': self.pos}

    def _setslot(self, k, v):
        object.__setattr__(self, k, v)

    def _trunc(self, n):
        pass

    def read(self, size=-1):
        e = eng()
        p = toT(self.pos)
        rem = t.sub(self.L, p)
        if not e.decide(t.le(t.ZERO, rem)):
            rem = t.ZERO
        s = toT(size)
        if s is None:
            raise TypeError('integer argument expected')
        if not e.decide(t.le(t.ZERO, s)):
            s = rem
        elif not e.decide(t.le(s, rem)):
            s = rem
        self.pos = mkint(t.add(p, s))
        return norm_bytes(SBytes([('b', self.buf, p, s)]))

    def tell(self):
        return self.pos


def stream(W):
    return Stream(W['buf'], W['L'], W['p'])


def s_setup(contract=True, **extra):
    def f(e):
        from . import block
        buf, L = buffer(e)
        ld = block.make_loader(contract)
        W = dict(buf=buf, L=L, p=t.var('p', 0, MAXLEN), ld=ld)
        for k, fn in extra.items():
            W[k] = fn(e)
        return W
    return f


def s_inputs(**kw):
    def f(e):
        d = {'P.len': t.var('P.len', 0, MAXLEN), 'p': t.var('p', 0, MAXLEN)}
        for k, (lo, hi) in kw.items():
            d[k] = t.var(k, lo, hi)
        return d
    return f


def spec_read_header(W, top, off):
    """header at the current position of the stream: (fields, address), position after it"""
    f = stream(W)
    h = contracts.parse_header_bytes(f.read(12), top)
    if h.extended:
        x = f.read(4)
        if not eng().decide(t.eq(as_sbytes(x).tlen(), t.const(4))):
            raise EOFError()
        w = as_sbytes(x).load('u4', 4, t.ZERO)
        h.content_size = h.content_size + get_low12(w) * (1 << 30)
    h.content_address = off + h.header_size
    return fields(h, ('content_address', 'total_size')), f.pos


def get_low12(w):
    return mkint(t.mod(w, 1 << 12))


def u_read_header(top):
    hi = (1 << 63) - 1

    def spec(W):
        return spec_read_header(W, top, mkint(W['off']))

    def code(W):
        base = W['ld'].load('eventio.base')
        f = stream(W)
        h = base.read_header(f, mkint(W['off']), toplevel=top)
        return fields(h, ('content_address', 'total_size')), f.pos
    return Unit('read_header(toplevel=%s)' % top, s_setup(off=lambda e: t.var('off', 0, hi)), spec, code, exc=('EOFError',),
                kernel=True, inputs=s_inputs(off=(0, hi)))


def u_sync():
    """read_sync_marker: end of file, truncated, big-endian and anything else"""
    def spec(W):
        f = stream(W)
        d = as_sbytes(f.read(4))
        e = eng()
        if e.decide(t.eq0(d.tlen())):
            raise SpecRaise('StopIteration')
        if not e.decide(t.eq(d.tlen(), t.const(4))):
            raise SpecRaise('EOFError')
        w = d.load('u4', 4, t.ZERO)
        if e.decide(t.eq(w, t.const(0xD41F8A37))):
            return f.pos
        if e.decide(t.eq(w, t.const(0x378A1FD4))):
            raise SpecRaise('NotImplementedError')
        raise SpecRaise('ValueError')

    def code(W):
        f = stream(W)
        W['ld'].load('eventio.base').read_sync_marker(f)
        return f.pos
    return Unit('read_sync_marker', s_setup(), spec, code, kernel=True, inputs=s_inputs())


def u_extension():
    def spec(W):
        d = as_sbytes(data_of(W))
        if not eng().decide(t.eq(d.tlen(), t.const(4))):
            raise SpecUndefined()
        return mkint(t.scale(t.mod(d.load('u4', 4, t.ZERO), 1 << 12), 1 << 30))
    return Unit('parse_extension_field', s_setup(), spec,
                lambda W: W['ld'].load('eventio.base').parse_extension_field(data_of(W)), kernel=True, inputs=s_inputs())


def u_total_size():
    """total_size of a header is its own size plus that of its content"""
    def setup(e):
        return dict(m=Mod('eventio.header'), n=t.var('content', 0, (1 << 63)), h=t.var('hsize', 0, 255))

    def code(W):
        cls = W['m'].g.get('ObjectHeader')
        f = W['m'].mt
        raise Unsupported('property of the extension class')
    return Unit('ObjectHeader.total_size', setup, lambda W: mkint(t.add(W['n'], W['h'])), code)


# ---------------------------------------------------------------- primitive readers
def u_varint_stream(nm):
    def spec(W):
        f = stream(W)
        e = eng()
        b = as_sbytes(f.read(1))
        if not e.decide(t.lt(t.ZERO, b.tlen())):
            raise IndexError()
        n = defs.expand('P', W['p'])
        rest = as_sbytes(f.read(n - 1))
        if not e.decide(t.eq(t.const(n - 1), rest.tlen() if rest is not None else t.ZERO)):
            raise EOFError()
        return mkint((defs.vu if nm == 'read_unsigned_varint' else defs.vs)('P', W['p'])), f.pos

    def code(W):
        f = stream(W)
        m = W['ld'].load('eventio.tools')
        r = getattr(m, nm)(f)
        return r, f.pos
    return Unit('tools.' + nm, s_setup(False), spec, code, exc=ANY, kernel=True, inputs=s_inputs())


def prim(nm, kind, size):
    def spec(W):
        f = stream(W)
        d = as_sbytes(f.read(size))
        if not eng().decide(t.eq(d.tlen(), t.const(size))):
            raise EOFError()
        x = d.load(kind, size, t.ZERO)
        return (mkint(x) if isinstance(x, t.T) else V.SymFloat(x)), f.pos

    def code(W):
        f = stream(W)
        return getattr(W['ld'].load('eventio.tools'), nm)(f), f.pos
    return Unit('tools.' + nm, s_setup(), spec, code, exc=ANY, kernel=True, inputs=s_inputs())


def u_time():
    def spec(W):
        f = stream(W)
        d = as_sbytes(f.read(8))
        if not eng().decide(t.eq(d.tlen(), t.const(8))):
            raise EOFError()
        return (mkint(d.load('i4', 4, t.ZERO)), mkint(d.load('i4', 4, t.const(4)))), f.pos

    def code(W):
        f = stream(W)
        return W['ld'].load('eventio.tools').read_time(f), f.pos
    return Unit('tools.read_time', s_setup(), spec, code, exc=ANY, kernel=True, inputs=s_inputs())


DT = ('i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'f4', 'f8')


def u_read_array(dt):
    size = np.dtype(dt).itemsize

    def spec(W):
        e = eng()
        n = W['n']
        f = stream(W)
        if not e.decide(t.bor(t.eq0(n), t.le(t.add(W['p'], t.scale(n, size)), W['L']))):
            raise EOFError()
        el = W['buf'].load(dt, t.add(W['p'], t.scale(IX[0], size)))
        return SArr(np.dtype(dt), (n,), el), mkint(t.add(W['p'], t.scale(n, size)))

    def code(W):
        f = stream(W)
        return W['ld'].load('eventio.tools').read_array(f, dt, mkint(W['n'])), f.pos
    return Unit('tools.read_array(%s)' % dt, s_setup(n=lambda e: t.var('n', 0, 1 << 40)), spec, code, exc=ANY, kernel=True,
                inputs=s_inputs(n=(0, 1 << 40)))


def u_string(nm):
    def spec(W):
        e = eng()
        f = stream(W)
        if nm == 'read_string':
            d = as_sbytes(f.read(2))
            if not e.decide(t.eq(d.tlen(), t.const(2))):
                raise EOFError()
            n = d.load('i2', 2, t.ZERO)
            if not e.decide(t.le(t.ZERO, n)):
                raise SpecUndefined()
        else:
            n = toT(contracts.read_unsigned_varint(f))
        p = toT(f.pos)
        if not e.decide(t.le(t.add(p, n), W['L'])):
            if e.decide(t.eq0(n)):
                return b'', f.pos
            raise EOFError()
        return norm_bytes(SBytes([('b', W['buf'], p, n)])), mkint(t.add(p, n))

    def code(W):
        f = stream(W)
        return getattr(W['ld'].load('eventio.tools'), nm)(f), f.pos
    return Unit('tools.' + nm, s_setup(), spec, code, exc=ANY, kernel=True, inputs=s_inputs())


def u_ints():
    def spec(W):
        e = eng()
        f = stream(W)
        k = 4
        out = []
        d = as_sbytes(f.read(4 * k))
        if not e.decide(t.eq(d.tlen(), t.const(4 * k))):
            raise EOFError()
        return tuple(mkint(d.load('i4', 4, t.const(4 * i))) for i in range(k)), f.pos

    def code(W):
        f = stream(W)
        return W['ld'].load('eventio.tools').read_ints(f, 4), f.pos
    return Unit('tools.read_ints(4)', s_setup(), spec, code, exc=ANY, kernel=True, inputs=s_inputs())


UNITS = {
    'C01': [('u_bit', {}), ('u_bits', {}), ('u_parse_header', {}), ('u_read_header', dict(top=True)),
            ('u_read_header', dict(top=False)), ('u_sync', {}), ('u_extension', {})],
    'C02': [('u_length', {}), ('u_parse', {}), ('u_single', dict(nm='unsigned_varint')), ('u_single', dict(nm='varint')),
            ('u_array', dict(nm='unsigned_varint_array')), ('u_array', dict(nm='varint_array')),
            ('u_varint_stream', dict(nm='read_unsigned_varint')), ('u_varint_stream', dict(nm='read_varint'))],
    'C03': [('u_diff_row', {}), ('u_diff_all', {})],
    'C24': [('prim', dict(nm='read_short', kind='i2', size=2)), ('prim', dict(nm='read_unsigned_short', kind='u2', size=2)),
            ('prim', dict(nm='read_int', kind='i4', size=4)), ('prim', dict(nm='read_unsigned_int', kind='u4', size=4)),
            ('prim', dict(nm='read_float', kind='f4', size=4)), ('prim', dict(nm='read_double', kind='f8', size=8)),
            ('u_time', {}), ('u_ints', {}), ('u_string', dict(nm='read_string')), ('u_string', dict(nm='read_var_string'))]
    + [('u_read_array', dict(dt=d)) for d in DT] + [('u_varint_stream', dict(nm='read_unsigned_varint')),
                                                    ('u_varint_stream', dict(nm='read_varint'))],
}
