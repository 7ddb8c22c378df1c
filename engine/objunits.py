"""Contracts of objects, files and pipes (EventIOObject, EventIOFile, PipeWrapper): one step from every reachable state.
The state is the one public operations lead to (open, one step of unknown size, seek); the step's result is compared with
the payload by definition, and the state after it with the state reached directly, so histories follow by induction."""
from . import terms as t
from . import core, defs, contracts, block, compare
from . import values as V
from .core import SpecUndefined, SpecRaise, Unsupported, eng
from .values import SBytes, toT, mkint, mkbool, norm_bytes, as_sbytes
from .fn import Unit, ANY
from .kernel import Stream, buffer, MAXLEN

BIG = 1 << 42


class File(Stream):
    """seekable file over a buffer: read gives the next min(n, rest) bytes, seek sets the position"""

    def seek(self, off, whence=0):
        e = eng()
        o = toT(off)
        if o is None:
            raise TypeError('integer argument expected')
        w = whence
        if toT(w).m:
            raise Unsupported('symbolic whence')
        if w == 0:
            p = o
        elif w == 1:
            p = t.add(toT(self.pos), o)
        elif w == 2:
            p = t.add(self.L, o)
        else:
            raise ValueError('invalid whence')
        if not e.decide(t.le(t.ZERO, p)):
            raise OSError('Invalid argument')
        self.pos = mkint(p)
        return self.pos

    def seekable(self):
        return True

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


class Pipe(Stream):
    """the reading end of a pipe: forward reading only"""

    def tell(self):
        raise OSError('Illegal seek')

    def seek(self, *a):
        raise OSError('Illegal seek')

    def close(self):
        pass


def base_of(W):
    if '_base' not in W:
        W['_base'] = W['ld'].load('eventio.base')
    return W['_base']


def mkheader(**kw):
    d = dict(type=mkint(t.var('o.type', 0, 65535)), version=mkint(t.var('o.version', 0, 4095)),
             id=mkint(t.var('o.id', -(1 << 31), (1 << 31) - 1)), user=False, extended=False, only_subobjects=False,
             header_size=16, content_address=0, content_size=0)
    d.update(kw)
    return contracts.ObjectHeader(**d)


def state(o, f):
    """everything an object remembers, and the position of its file"""
    d = {k: v for k, v in vars(o).items() if v is not f and not isinstance(v, contracts.ObjectHeader)}
    return d, f.pos


def same_state(o, f, o2, f2, name, only=None):
    e = eng()
    a, p = state(o, f)
    b, q = state(o2, f2)
    side, e.side = e.side, 'cmp'
    try:
        if sorted(a) != sorted(b):
            compare.mismatch(name, 'private attributes %s, %s' % (sorted(a), sorted(b)))
            return
        for k in sorted(a):
            if isinstance(a[k], contracts.ObjectHeader) or callable(a[k]):
                continue
            compare.eqv(a[k], b[k], '%s: private %s' % (name, k))
        if only is None:
            compare.eqv(p, q, '%s: private file position' % name)
    finally:
        e.side = side


# ---------------------------------------------------------------- C04: payload access
def obj_setup(*names, cls=None, inside=True):
    def f(e):
        buf, L = buffer(e)
        ld = block.make_loader(True, False)
        A, S = t.var('A', 0, BIG), t.var('S', 0, BIG)
        e._assume(t.le(A, L))
        if inside:
            e._assume(t.le(t.add(A, S), L))
        else:
            e._assume(t.lt(L, t.add(A, S)))
        W = dict(buf=buf, L=L, ld=ld, A=A, S=S, p=t.var('p', 0, BIG))
        for n in names:
            W[n] = t.var(n, -BIG, BIG)
        return W
    return f


def obj_inputs(*names):
    def f(e):
        d = {'P.len': t.var('P.len', 0, MAXLEN), 'A': t.var('A', 0, BIG), 'S': t.var('S', 0, BIG), 'p': t.var('p', 0, BIG)}
        for n in names:
            d[n] = t.var(n, -BIG, BIG)
        return d
    return f


def cls_of(W):
    if 'objcls' in W:
        modname, nm = W['objcls'].split(':')
        return getattr(W['ld'].load(modname), nm)
    return base_of(W).EventIOObject


def mktype(cls):
    return {} if cls.eventio_type is None or not isinstance(cls.eventio_type, int) else dict(type=cls.eventio_type)


def make(W):
    """the object as it is delivered: its file is positioned at its payload"""
    f = File(W['buf'], W['L'], W['A'])
    c = cls_of(W)
    return c(mkheader(content_size=mkint(W['S']), content_address=mkint(W['A']), **mktype(c)), f), f


def payload(W, a, b):
    """payload bytes [a, b)"""
    return norm_bytes(SBytes([('b', W['buf'], t.add(W['A'], a), t.sub(b, a))]))


def read_spec(W, p, n):
    """(bytes, new position) of a read at p; EOFError if the file ends before"""
    e = eng()
    rem = t.sub(W['S'], p)
    if not e.decide(t.le(t.ZERO, rem)):
        rem = t.ZERO
    k = n
    if not e.decide(t.band(t.le(t.ZERO, n), t.le(n, rem))):
        k = rem
    if e.decide(t.eq0(k)):
        return b'', mkint(p)
    if not e.decide(t.le(t.add(t.add(W['A'], p), k), W['L'])):
        raise EOFError()
    return payload(W, p, t.add(p, k)), mkint(t.add(p, k))


def u_read(inside=True):
    def spec(W):
        return read_spec(W, W['p'], W['n'])

    def code(W):
        o, f = make(W)
        o.seek(mkint(W['p']))
        d = o.read(mkint(W['n']))
        q = o.tell()
        o2, f2 = make(W)
        o2.seek(q)
        same_state(o, f, o2, f2, 'state after read')
        return d, q
    return Unit('EventIOObject.read%s' % ('' if inside else ' of a truncated object'), obj_setup('n', inside=inside), spec, code,
                exc=('EOFError',), kernel=True, inputs=obj_inputs('n'))


def u_read_all():
    def spec(W):
        d, q = read_spec(W, W['p'], t.const(-1))
        return d, q, b''

    def code(W):
        o, f = make(W)
        o.seek(mkint(W['p']))
        d = o.read()
        q = o.tell()
        return d, q, o.read()
    return Unit('EventIOObject.read()', obj_setup(), spec, code, exc=('EOFError',), kernel=True, inputs=obj_inputs())


def seek_spec(W, p, o, w):
    e = eng()
    if w == 0:
        q = o
    elif w == 1:
        q = t.add(p, o)
    else:
        q = t.sub(W['S'], o)
        if not e.decide(t.le(o, W['S'])):
            q = t.ZERO
    if not e.decide(t.le(t.ZERO, q)):
        raise SpecRaise('Exception')
    return mkint(q)


def u_seek(w):
    def spec(W):
        q = seek_spec(W, W['p'], W['n'], w)
        return q, q

    def code(W):
        o, f = make(W)
        o.seek(mkint(W['p']))
        q = o.seek(mkint(W['n']), w)
        o2, f2 = make(W)
        o2.seek(q)
        same_state(o, f, o2, f2, 'state after seek')
        return q, o.tell()
    return Unit('EventIOObject.seek(whence=%d)' % w, obj_setup('n'), spec, code, kernel=True, inputs=obj_inputs('n'))


def u_refused(w):
    """a refused seek leaves the position as it was"""
    def spec(W):
        try:
            seek_spec(W, W['p'], W['n'], w)
        except SpecRaise:
            return mkint(W['p'])
        raise SpecUndefined()

    def code(W):
        o, f = make(W)
        o.seek(mkint(W['p']))
        try:
            o.seek(mkint(W['n']), w)
        except (AssertionError, ValueError, OSError):
            pass
        o2, f2 = make(W)
        o2.seek(mkint(W['p']))
        same_state(o, f, o2, f2, 'state after a refused seek')
        return o.tell()
    return Unit('EventIOObject.seek(whence=%d) refused' % w, obj_setup('n'), spec, code, kernel=True, inputs=obj_inputs('n'))


def u_initial():
    def spec(W):
        return 0, payload(W, t.ZERO, W['S']) if eng().decide(t.lt(t.ZERO, W['S'])) else b''

    def code(W):
        o, f = make(W)
        o2, f2 = make(W)
        o2.seek(0)
        same_state(o, f, o2, f2, 'state of a new object')
        return o.tell(), o.read()
    return Unit('EventIOObject delivered', obj_setup(), spec, code, kernel=True, inputs=obj_inputs())


def u_class(path):
    """an object of this class is delivered in a state that seeking leads to as well"""
    def setup(e):
        W = obj_setup()(e)
        e._assume(t.le(t.const(16), W['S']))
        modname, nm = path.split(':')
        W['cls'] = getattr(W['ld'].load(modname), nm)
        et = W['cls'].eventio_type
        W['et'] = et if et is not None else mkint(t.var('o.type', 0, 65535))
        if nm in PER_TEL:
            tl = t.var('o.tel', 0, 999)
            W['et'] = mkint(t.addc(t.add(t.mod(tl, 100), t.scale(t.div(tl, 100), 1000)), PER_TEL[nm]))
            i = t.var('o.id', -(1 << 31), (1 << 31) - 1)
            if nm == 'TrackingPosition':
                e._assume(t.eq(t.mod(i, 256), t.mod(tl, 256)))
                e._assume(t.eq(t.mod(t.div(i, 1 << 24), 64), t.div(tl, 256)))
        W['sub'] = mkbool(t.eq(t.var('o.sub', 0, 1), t.ONE))
        return W

    def obj(W):
        f = File(W['buf'], W['L'], W['A'])
        return W['cls'](mkheader(type=W['et'], content_size=mkint(W['S']), content_address=mkint(W['A']),
                                 only_subobjects=W['sub']), f), f

    def code(W):
        o, f = obj(W)
        q = o.tell()
        o2, f2 = obj(W)
        o2.seek(q)
        same_state(o, f, o2, f2, 'state of a new object')
        eng().oblige(t.band(t.le(t.ZERO, toT(q)), t.le(toT(q), W['S'])), 'initial position')
        return True
    return Unit('%s delivered' % path.split(':')[1], setup, lambda W: True, code, kernel=True, inputs=obj_inputs())


PER_TEL = {'TrackingPosition': 2100, 'TelescopeEvent': 2200}


# ---------------------------------------------------------------- C05: iteration
class Registry:
    """a table of reader classes with unknown content"""
    def __init__(self, base):
        self.base = base

    def has(self, k):
        return eng().decide(t.eq(t.app('known', (toT(k),), 0, 1), t.ONE))

    def __getitem__(self, k):
        if not self.has(k):
            raise KeyError(k)
        return type('Known', (self.base,), {'key': k})

    def get(self, k, default=None):
        return self[k] if self.has(k) else default

    def __contains__(self, k):
        return self.has(k)


def reader_spec(h):
    return ('Known', h.type) if Registry(None).has(h.type) else ('EventIOObject', 0)


def reach(W, make_next, n0):
    """bring an iterable to the state where its next object starts at offset n0: one step over an object of that size"""
    m = base_of(W)
    e = eng()
    real = m.parse_header_bytes

    def stub(data, toplevel=False):
        hs = 16 if toplevel else 12
        return contracts.ObjectHeader(type=0, version=0, id=0, user=False, extended=False, only_subobjects=False,
                                      header_size=hs, content_address=0, content_size=mkint(t.addc(n0, -hs)))
    m.parse_header_bytes = stub
    try:
        return make_next()
    finally:
        m.parse_header_bytes = real


def header_at(W, p, end, top, off):
    """(class name, header fields, file position) of the object stored at p; the exceptions of its absence"""
    e = eng()
    buf = W['buf']
    if top:
        if not e.decide(t.lt(p, end)):
            raise SpecRaise('StopIteration')
        if not e.decide(t.le(t.addc(p, 4), end)):
            raise SpecRaise('EOFError')
        w = buf.load('u4', p)
        if e.decide(t.eq(w, t.const(0x378A1FD4))):
            raise SpecRaise('NotImplementedError')
        if not e.decide(t.eq(w, t.const(0xD41F8A37))):
            raise SpecRaise('ValueError')
        p = t.addc(p, 4)
    if not e.decide(t.le(t.addc(p, 12), end)):
        raise SpecRaise('EOFError')
    h = contracts.parse_header_bytes(norm_bytes(SBytes([('b', buf, p, t.const(12))])), top)
    p = t.addc(p, 12)
    if h.extended:
        if not e.decide(t.le(t.addc(p, 4), end)):
            raise SpecRaise('EOFError')
        h.content_size = h.content_size + mkint(t.scale(t.mod(buf.load('u4', p), 1 << 12), 1 << 30))
        p = t.addc(p, 4)
    h.content_address = mkint(p)
    return h, p


HF = ('id', 'type', 'version', 'user', 'extended', 'only_subobjects', 'header_size', 'content_size', 'content_address')


def view(o):
    h = o.header
    return tuple(getattr(h, k) for k in HF) + (o.size, o.address, o.only_subobjects, o.tell(),
                                                 type(o).__name__, getattr(o, 'key', 0))


def view_spec(h):
    return tuple(getattr(h, k) for k in HF) + (h.content_size, h.content_address, h.only_subobjects, 0) + reader_spec(h)


class Files:
    """EventIOFile over a buffer: the opening functions are replaced"""
    def __init__(self, W):
        m = self.m = base_of(W)
        self.W = W
        m.KNOWN_OBJECTS = Registry(m.EventIOObject)
        q = V.Buf('Q', t.var('Q.len', 1 << 50, 1 << 50))
        self.q = q
        self.f = File(q, t.const(1 << 50), t.ZERO)
        m.is_eventio = lambda p: True
        m.is_gzip = lambda p: False
        m.is_zstd = lambda p: False
        m.open = lambda *a, **k: self.f

    def at(self, n0):
        """the file object after one object of size n0"""
        e = eng()
        e.assume(t.eq(self.q.load('u4', t.ZERO), t.const(0xD41F8A37)))
        o = self.m.EventIOFile('file')
        reach(self.W, lambda: next(o), n0)
        self.f.buf, self.f.L = self.W['buf'], self.W['L']
        return o


def file_setup(e):
    buf, L = buffer(e)
    ld = block.make_loader(True, False)
    return dict(buf=buf, L=L, ld=ld, N=t.var('N', 16, BIG), q=t.var('q', 0, BIG), n=t.var('n', -1, BIG))


def file_inputs(e):
    return {'P.len': t.var('P.len', 0, MAXLEN), 'N': t.var('N', 16, BIG), 'q': t.var('q', 0, BIG), 'n': t.var('n', -1, BIG)}


def file_at(W, n0):
    F = Files(W)
    return F.at(n0), F.f


def u_file_next():
    def spec(W):
        h, p = header_at(W, W['N'], W['L'], True, t.ZERO)
        return view_spec(h), mkint(p)

    def code(W):
        fo, f = file_at(W, W['N'])
        f.pos = mkint(W['q'])
        o = next(fo)
        r = view(o), mkint(toT(f.pos))
        n1 = t.add(W['N'], t.add(toT(o.header.content_size), toT(o.header.header_size)))
        fo2, f2 = file_at(W, n1)
        same_state(fo, f, fo2, f2, 'state after next', only=True)
        return r
    return Unit('EventIOFile.__next__', file_setup, spec, code, kernel=True, buf=('P', 'Q'), inputs=file_inputs)


def u_file_peek():
    """looking ahead delivers the next object, any number of times, without consuming it"""
    def spec(W):
        h, p = header_at(W, W['N'], W['L'], True, t.ZERO)
        return view_spec(h), True, True

    def code(W):
        e = eng()
        fo, f = file_at(W, W['N'])
        f.pos = mkint(W['q'])
        a = fo.peek()
        if a is None:
            return next(fo)             # the same end, or the same error
        f.pos = mkint(t.var('q2', 0, BIG))
        b = fo.peek()
        fo.read(mkint(W['n']))
        fo.seek(mkint(W['q']))
        c = next(fo)
        r = view(c), a is b, a is c
        n1 = t.add(W['N'], t.add(toT(c.header.content_size), toT(c.header.header_size)))
        fo2, f2 = file_at(W, n1)
        same_state(fo, f, fo2, f2, 'state after peek and next', only=True)
        return r
    return Unit('EventIOFile.peek', file_setup, spec, code, kernel=True, buf=('P', 'Q'), inputs=file_inputs)


def u_file_frame():
    """reading and seeking the file leaves the sequence of objects alone"""
    def spec(W):
        return True

    def code(W):
        fo, f = file_at(W, W['N'])
        fo.seek(mkint(W['q']))
        fo.read(mkint(W['n']))
        fo.tell()
        fo2, f2 = file_at(W, W['N'])
        same_state(fo, f, fo2, f2, 'state after reading the file', only=True)
        return True
    return Unit('EventIOFile.read/seek frame', file_setup, spec, code, kernel=True, buf=('P', 'Q'), inputs=file_inputs)


def u_file_start():
    """a new file delivers the object at its start, whatever the position it was opened at"""
    def setup(e):
        W = file_setup(e)
        W['m'] = Files(W)
        return W

    def spec(W):
        h, p = header_at(W, t.ZERO, W['L'], True, t.ZERO)
        return view_spec(h), mkint(p)

    def code(W):
        F = Files(W)
        F.f.buf, F.f.L, F.f.pos = W['buf'], W['L'], mkint(W['q'])
        fo = F.m.EventIOFile('file')
        o = next(fo)
        r = view(o), mkint(toT(F.f.pos))
        n1 = t.add(toT(o.header.content_size), toT(o.header.header_size))
        fo2, f2 = file_at(W, n1)
        same_state(fo, F.f, fo2, f2, 'state after the first object', only=True)
        return r
    return Unit('EventIOFile start', setup, spec, code, kernel=True, buf=('P', 'Q'), inputs=file_inputs)


def obj_at(W, n0=None, file=None):
    """an object with sub-objects, the first n0 bytes of which have been iterated over"""
    q = V.Buf('Q', t.var('Q.len', 1 << 50, 1 << 50))
    f = File(q, t.const(1 << 50), W['A'])
    base_of(W).KNOWN_OBJECTS = Registry(base_of(W).EventIOObject)
    c = cls_of(W)
    o = c(mkheader(content_size=mkint(W['S']), content_address=mkint(W['A']), only_subobjects=True, **mktype(c)), f)
    if n0 is not None:
        reach(W, lambda: next(iter(o)), n0)
    f.buf, f.L = W['buf'], W['L']
    return o, f


def sub_setup(start=False, inside=True):
    def f(e):
        W = obj_setup('n', inside=inside)(e)
        W['N'] = t.ZERO if start else t.var('N', 12, BIG)
        W['q'] = t.var('q', 0, BIG)
        if not start:
            e._assume(t.le(t.const(16), W['S']))
            e._assume(t.le(W['N'], W['S']))
        return W
    return f


def sub_inputs(e):
    d = obj_inputs('n')(e)
    d['N'] = t.var('N', 12, BIG)
    d['q'] = t.var('q', 0, BIG)
    return d


def u_sub_next(start=False):
    def spec(W):
        e = eng()
        if not e.decide(t.lt(W['N'], W['S'])):
            raise SpecRaise('StopIteration')
        p = t.add(W['A'], W['N'])
        end = t.add(W['A'], W['S'])
        h, p = header_at(W, p, end, False, t.ZERO)
        if not e.decide(t.le(t.add(p, toT(h.content_size)), end)):
            raise SpecUndefined()
        return view_spec(h), mkint(p)

    def code(W):
        o, f = obj_at(W, None if start else W['N'])
        # anything read or sought on the object, and on others of the file, in between
        o.seek(mkint(W['p']))
        if bool(mkbool(t.eq(t.var('rd', 0, 1), t.ONE))):
            o.read(mkint(W['n']))
        f.pos = mkint(W['q'])
        c = next(o)
        r = view(c), mkint(toT(f.pos))
        n1 = t.add(W['N'], t.add(toT(c.header.content_size), toT(c.header.header_size)))
        o2, f2 = obj_at(W, n1)
        o.seek(0)
        o2.seek(0)
        same_state(o, f, o2, f2, 'state after next', only=True)
        return r
    return Unit('EventIOObject.__next__%s' % (' (first)' if start else ''), sub_setup(start), spec, code, kernel=True,
                buf=('P', 'Q'), inputs=sub_inputs)


def u_sub_trunc():
    """the file ends inside the object"""
    def spec(W):
        e = eng()
        if not e.decide(t.lt(W['N'], W['S'])):
            raise SpecRaise('StopIteration')
        h, p = header_at(W, t.add(W['A'], W['N']), W['L'], False, t.ZERO)
        if not e.decide(t.le(t.add(p, toT(h.content_size)), t.add(W['A'], W['S']))):
            raise SpecUndefined()
        return view_spec(h), mkint(p)

    def code(W):
        o, f = obj_at(W, W['N'])
        f.pos = mkint(W['q'])
        c = next(o)
        return view(c), mkint(toT(f.pos))
    return Unit('EventIOObject.__next__ of a truncated object', sub_setup(False, False), spec, code, kernel=True,
                buf=('P', 'Q'), inputs=sub_inputs)


def u_sub_frame():
    def code(W):
        o, f = obj_at(W, W['N'])
        o.seek(mkint(W['p']))
        o.read(mkint(W['n']))
        o.tell()
        q = o.tell()
        o2, f2 = obj_at(W, W['N'])
        o2.seek(q)
        same_state(o, f, o2, f2, 'state after reading between sub-objects', only=True)
        return True
    return Unit('EventIOObject.read/seek frame', sub_setup(), lambda W: True, code, kernel=True, buf=('P', 'Q'), inputs=sub_inputs)


def u_not_iterable():
    """an object with data of its own is not taken apart"""
    def setup(e):
        return obj_setup()(e)

    def spec(W):
        raise SpecRaise('ValueError')

    def code(W):
        o, f = make(W)
        return next(o)
    return Unit('EventIOObject.__next__ of data', setup, spec, code, kernel=True, inputs=obj_inputs())


# ---------------------------------------------------------------- C06: pipes
def pipe_setup(e):
    buf, L = buffer(e)
    ld = block.make_loader(True, False)
    p = t.var('p', 0, BIG)
    e._assume(t.le(p, L))
    return dict(buf=buf, L=L, ld=ld, p=p, n=t.var('n', -BIG, BIG))


PIPE_LIM = (24, 64, 600, 1 << 20, 1 << 24, 1 << 29)


def pipe_inputs(e):
    return {'P.len': t.var('P.len', 0, MAXLEN), 'p': t.var('p', 0, BIG), 'n': t.var('n', -BIG, BIG)}


def pipe_at(W, p):
    f = Pipe(W['buf'], W['L'], t.ZERO)
    w = base_of(W).PipeWrapper(f)
    if p is not None:
        w.read(mkint(p))
    return w, f


def plain(W, p):
    return File(W['buf'], W['L'], p)


def u_pipe_read():
    def spec(W):
        f = plain(W, W['p'])
        d = f.read(mkint(W['n']))
        return d, f.tell()

    def code(W):
        w, f = pipe_at(W, W['p'])
        d = w.read(mkint(W['n']))
        q = w.tell()
        w2, f2 = pipe_at(W, toT(q))
        same_state(w, f, w2, f2, 'state after read')
        return d, q
    return Unit('PipeWrapper.read', pipe_setup, spec, code, kernel=True, inputs=pipe_inputs, lim=PIPE_LIM)


def u_pipe_seek(wh):
    def spec(W):
        e = eng()
        o = W['n']
        if wh == 2:
            raise SpecRaise('OSError')
        q = o if wh == 0 else t.add(W['p'], o)
        if not e.decide(t.le(W['p'], q)):
            raise SpecRaise('OSError')
        if not e.decide(t.le(q, W['L'])):
            raise SpecUndefined()
        f = plain(W, W['p'])
        r = f.seek(mkint(o), wh)
        return r, f.tell()

    def code(W):
        w, f = pipe_at(W, W['p'])
        try:
            r = w.seek(mkint(W['n']), wh)
        except OSError:
            eng().side, sd = 'cmp', eng().side
            compare.eqv(w.tell(), mkint(W['p']), 'position after a refused seek')
            eng().side = sd
            w2, f2 = pipe_at(W, W['p'])
            same_state(w, f, w2, f2, 'state after a refused seek')
            raise
        q = w.tell()
        w2, f2 = pipe_at(W, toT(q))
        same_state(w, f, w2, f2, 'state after seek')
        return r, q
    return Unit('PipeWrapper.seek(whence=%d)' % wh, pipe_setup, spec, code, kernel=True, inputs=pipe_inputs, lim=PIPE_LIM)


def u_pipe_start():
    def code(W):
        w, f = pipe_at(W, None)
        q = w.tell()
        w2, f2 = pipe_at(W, t.ZERO)
        same_state(w, f, w2, f2, 'initial state')
        return q
    return Unit('PipeWrapper start', pipe_setup, lambda W: 0, code, kernel=True, inputs=pipe_inputs)


# ---------------------------------------------------------------- C08: versions
class Reached(Exception):
    pass


def u_accept(path, versions):
    """a supported version is not refused: reading the payload begins"""
    def setup(e):
        ld = block.make_loader()
        modname, nm = path.split(':')
        base = ld.load('eventio.base').EventIOObject

        def reached(self, *a):
            raise Reached()
        base.read = reached
        from . import symspec
        spec = symspec.load(ld).BLOCKS[path]
        cls = getattr(ld.load(modname), nm)
        et, v, i, tel = block.header_for(e, cls, 0, spec, versions)
        v = t.var('hdr.version', 0, 4095)
        e._assume(t.bor(*[t.eq(v, t.const(k)) for k in versions]))
        buf, L = buffer(e)
        return dict(cls=cls, et=et, v=v, i=i, buf=buf, L=L, spec=spec, tel=tel, H=symspec.Hdr)

    class Stop:
        def supported(self, ok):
            if not ok:
                raise SpecRaise('NotImplementedError')

        def __getattr__(self, k):
            raise Reached()

    def spec(W):
        # other reasons for refusing a block may come from its id
        try:
            W['spec']['fn'](Stop(), W['H'](type=W['et'], version=mkint(W['v']), id=mkint(W['i']), tel=W['tel'], content_size=mkint(W['L'])))
        except Reached:
            return True
        except SpecRaise:
            raise SpecUndefined()
        return True

    def code(W):
        e = eng()
        try:
            o = block.build(W['cls'], W['et'], mkint(W['v']), mkint(W['i']), W['buf'], W['L'], W['L'])
            o.parse()
        except Reached:
            pass
        return True
    return Unit('%s accepts its versions' % path.split(':')[1], setup, spec, code, kernel=True,
                inputs=lambda e: {'version': t.var('hdr.version', 0, 4095), 'id': t.var('hdr.id', -(1 << 31), (1 << 31) - 1)})


# ---------------------------------------------------------------- C09: numbers packed into types and ids
def packed(**f):
    """sum of fields at bit positions: name=(bits, position)"""
    x = t.ZERO
    for nm, (n, pos) in f.items():
        x = t.add(x, t.scale(t.var(nm, 0, (1 << n) - 1), 1 << pos))
    return x


def fld(nm, n):
    return t.var(nm, 0, (1 << n) - 1)


I32 = lambda: t.var('number', -(1 << 31), (1 << 31) - 1)
TL = lambda: t.var('tel', 0, 999)
TELBITS = dict(lo=(8, 0), mid=(16, 8), hi=(6, 24), top=(1, 30))
tel14 = lambda: t.add(fld('lo', 8), t.scale(fld('hi', 6), 256))


def flag(nm):
    return mkbool(t.eq(fld(nm, 1), t.ONE))


S, I = 'eventio.simtel.objects:', 'eventio.iact.objects:'
# class -> (id, {attribute: value})
IDS = {
    S + 'TelescopeEvent': lambda: (I32(), dict(telescope_id=mkint(TL()), global_count=mkint(I32()))),
    I + 'Photons': lambda: (t.add(TL(), t.scale(t.var('array', 0, 2000000), 1000)),
                            dict(telescope_id=mkint(TL()), array_id=mkint(t.var('array', 0, 2000000)))),
    I + 'PhotoElectrons': lambda: (t.add(TL(), t.scale(t.var('array', 0, 2000000), 1000)),
                                   dict(telescope_id=mkint(TL()), array_id=mkint(t.var('array', 0, 2000000)))),
    S + 'PixelList': lambda: (t.add(t.var('tel', 0, 999999), t.scale(t.var('code', 0, 2000), 1000000)),
                              dict(telescope_id=mkint(t.var('tel', 0, 999999)), code=mkint(t.var('code', 0, 2000)))),
    S + 'ImageParameters': lambda: (packed(**TELBITS), dict(telescope_id=mkint(tel14()))),
    S + 'CameraMonitoring': lambda: (packed(**TELBITS), dict(telescope_id=mkint(tel14()))),
    S + 'ADCSamples': lambda: (packed(zs=(5, 0), red=(5, 5), gain=(1, 10), rest=(1, 11), tel=(16, 12)),
                               dict(telescope_id=mkint(fld('tel', 16)))),
    S + 'TrackingPosition': lambda: (packed(lo=(8, 0), raw=(1, 8), cor=(1, 9), mid=(14, 10), hi=(6, 24), top=(1, 30)),
                                     dict(has_raw=flag('raw'), has_cor=flag('cor'))),
    S + 'CalibrationEvent': lambda: (I32(), dict(type=mkint(I32()))),
    S + 'ArrayEvent': lambda: (I32(), dict(event_id=mkint(I32()))),
    S + 'TriggerInformation': lambda: (I32(), dict(global_count=mkint(I32()))),
    S + 'RunHeader': lambda: (I32(), dict(run_id=mkint(I32()))),
}
for _n in ('CameraSettings', 'CameraOrganization', 'PixelSettings', 'DisabledPixels', 'CameraSoftwareSettings', 'PointingCorrection',
           'DriveSettings', 'TelescopeEventHeader', 'PixelTiming', 'LaserCalibration', 'PixelTriggerTimes', 'PixelMonitoring'):
    IDS[S + _n] = lambda: (I32(), dict(telescope_id=mkint(I32())))


def u_ids(path, version=None):
    nm = path.split(':')[1]
    if nm == 'ADCSums':
        def ids():
            if version in (0, 1):
                return (packed(zs=(5, 0), red=(5, 5), gain=(2, 10), mid=(13, 12), tel=(5, 25), top=(1, 30)),
                        dict(telescope_id=mkint(fld('tel', 5))))
            return (packed(zs=(5, 0), red=(5, 5), gain=(1, 10), rest=(1, 11), tel=(16, 12)),
                    dict(telescope_id=mkint(fld('tel', 16))))
    else:
        ids = IDS[path]

    def setup(e):
        W = obj_setup()(e)
        e._assume(t.le(t.const(16), W['S']))
        i, exp = ids()
        modname, _ = path.split(':')
        cls = getattr(W['ld'].load(modname), nm)
        et = cls.eventio_type
        if nm in PER_TEL:
            if nm == 'TrackingPosition':
                tl = t.add(fld('lo', 8), t.scale(fld('hi', 6), 256))
                e._assume(t.lt(tl, t.const(1000)))
                exp['telescope_id'] = mkint(tl)
            else:
                tl = TL()
            et = mkint(t.addc(t.add(t.mod(tl, 100), t.scale(t.div(tl, 100), 1000)), PER_TEL[nm]))
        if nm == 'Photons':
            # all bits of the version but the last decimals are the format's
            W['version'] = mkint(t.var('o.version', 0, 4095))
        return dict(W, cls=cls, et=et, i=i, exp=exp)

    def spec(W):
        return tuple(W['exp'][k] for k in sorted(W['exp']))

    def code(W):
        f = File(W['buf'], W['L'], W['A'])
        kw = dict(type=W['et'], content_size=mkint(W['S']), content_address=mkint(W['A']), id=mkint(W['i']))
        if version is not None:
            kw['version'] = version
        o = W['cls'](mkheader(**kw), f)
        return tuple(getattr(o, k) for k in sorted(W['exp']))
    return Unit('%s%s: numbers in its id' % (nm, '' if version is None else ' v%d' % version), setup, spec, code, kernel=True,
                inputs=lambda e: dict(obj_inputs()(e), id=ids()[0], tel=TL()))


def u_telid(path):
    """type numbers and telescope ids correspond one to one"""
    nm = path.split(':')[1]

    def setup(e):
        ld = block.make_loader(True, False)
        return dict(cls=getattr(ld.load(path.split(':')[0]), nm), tel=TL())

    def spec(W):
        tl = W['tel']
        return mkint(t.addc(t.add(t.mod(tl, 100), t.scale(t.div(tl, 100), 1000)), PER_TEL[nm])), mkint(tl)

    def code(W):
        et = W['cls'].telid_to_type(mkint(W['tel']))
        return et, W['cls'].type_to_telid(et)
    return Unit('%s type number' % nm, setup, spec, code, inputs=lambda e: dict(tel=TL()))


UNITS09 = ([('u_ids', dict(path=p)) for p in IDS] + [('u_ids', dict(path=S + 'ADCSums', version=v)) for v in (0, 1, 2, 3)]
           + [('u_telid', dict(path=S + p)) for p in PER_TEL])

UNITS = {
    'C09': UNITS09,
    'C04': [('u_read', dict(inside=True)), ('u_read_all', {}), ('u_seek', dict(w=0)),
            ('u_seek', dict(w=1)), ('u_seek', dict(w=2)), ('u_refused', dict(w=0)), ('u_refused', dict(w=1)), ('u_initial', {})],
    'C05': [('u_file_start', {}), ('u_file_next', {}), ('u_file_peek', {}), ('u_file_frame', {}), ('u_sub_next', dict(start=True)),
            ('u_sub_next', dict(start=False)), ('u_sub_frame', {}), ('u_not_iterable', {})],
    'C06': [('u_pipe_start', {}), ('u_pipe_read', {}), ('u_pipe_seek', dict(wh=0)), ('u_pipe_seek', dict(wh=1)), ('u_pipe_seek', dict(wh=2))],
    'C07': [('u_read_header', dict(top=True)), ('u_read_header', dict(top=False)), ('u_sync', {}), ('u_parse_header', {}),
            ('u_parse', {}), ('u_single', dict(nm='unsigned_varint')), ('u_single', dict(nm='varint')),
            ('u_array', dict(nm='unsigned_varint_array')), ('u_array', dict(nm='varint_array')), ('u_diff_row', {}), ('u_diff_all', {}),
            ('u_varint_stream', dict(nm='read_unsigned_varint')), ('u_varint_stream', dict(nm='read_varint')),
            ('u_string', dict(nm='read_string')), ('u_string', dict(nm='read_var_string')),
            ('u_read', dict(inside=False)), ('u_file_next', {}), ('u_file_peek', {}), ('u_sub_trunc', {})],
}
