"""Contract of IACTFile (C19): the events of a shower are those of its own blocks, for any number of reuses, telescopes and
photon bunches.  Blocks are opaque (engine.opaque); their classes are given by the position in the file."""
from . import terms as t
from . import core, block, compare, loops, opaque, arrays
from . import values as V
from .core import Unsupported, eng
from .values import SDict, SList, toT, mkint, Heap
from .shims import Tok
from .fn import Unit
import numpy as np

CUR = {}


class Pos(Heap):
    def __init__(self):
        self._register()
        self.p = t.ZERO

    def _slots(self):
        return {'pos': mkint(self.p)}

    def _setslot(self, k, v):
        self.p = toT(v)


class FeedFile:
    """what IACTFile uses of EventIOFile: the objects from the current position on"""
    def __init__(self, path, zcat=True):
        eng().instances.append(self)
        self.W = CUR['W']
        self.path = path
        self.at = Pos()
        self.next = None
        self.peek_error = None

    def __next__(self):
        if self.next is not None:
            o, self.next = self.next, None
            return o
        o = self.W['layout'].block(self.at.p)
        self.at.p = t.addc(self.at.p, 1)
        return o

    def __iter__(self):
        return self

    def tell(self):
        return mkint(self.at.p)

    @property
    def _next_header_pos(self):
        return mkint(self.at.p)

    @_next_header_pos.setter
    def _next_header_pos(self, v):
        self.at.p = toT(v)

    def close(self):
        pass

    def peek(self):
        if self.next is None:
            self.next = next(self)
        return self.next


# ---------------------------------------------------------------- what parse returns
def offsets(b, weight, n):
    """time offset and the table of n reuses"""
    cols = [(c, np.dtype('<f4'), ()) for c in (('x', 'y', 'weight') if weight else ('x', 'y'))]
    el = {c: t.fterm('offsets.' + c, b.args[0], arrays.IX[0]) for c, _, _ in cols}
    return arrays.SArr(arrays.SDtype(cols), (toT(n),), el)


def head(b):
    d = SDict()
    d['version'] = b.num('corsika_version')
    d['event_number'] = b.num('event_number')
    d['rest'] = b.tok('header')
    return d


def photons(b):
    return (b.tok('photons'), b.tok('emitter') if eng().decide(b.flag('has emitter')) else None)


def parser(b, a, k):
    W = b.W
    if a and not b.__isa__(W['classes'].named('EventEnd')):
        raise TypeError('parse() takes 1 positional argument')
    if b.__isa__(W['classes'].named('EventHeader')):
        return head(b)
    if b.__isa__(W['classes'].named('ArrayOffsets')):
        w, n = W['offsets'](b)
        return (b.tok('time_offset'), offsets(b, w, n))
    if b.__isa__(W['classes'].named('Photons')):
        return photons(b)
    return NotImplemented


def setup(layout, n, weight=True, facts=None):
    """layout: regions, or a function of n"""
    def f(e):
        ld = block.make_loader(True, False)
        W = dict(ld=ld, parse=parser)
        CUR['W'] = W
        was = ld.on_load.get('eventio.base', lambda m: None)
        ld.on_load['eventio.base'] = lambda m: (was(m), setattr(m, 'EventIOFile', FeedFile))[0]
        W['m'] = ld.load('eventio.iact')
        W['classes'] = opaque.Classes(ld)
        W['n'] = N = mkint(t.var('reuses', 1, 1 << 40)) if n is None else n
        W['offsets'] = lambda b: (weight, N)
        W['regions'] = layout(N)
        W['layout'] = opaque.Layout(W, W['regions'])
        if facts:
            facts(e, W)
        return W
    return f


HEADER = [(1, 'RunHeader'), (1, 'InputCard'), (1, 'TelescopeDefinition')]


def as_dicts(v):
    """events as dictionaries"""
    if isinstance(v, tuple) and hasattr(v, '_fields'):
        d = SDict()
        for k, x in zip(v._fields, v):
            d[k] = x
        return d
    if isinstance(v, (list, SList)):
        r = SList()
        for ev in V.freeze(v)._log if isinstance(v, SList) else [('item', x) for x in v]:
            r._log.append(conv(ev))
        return r
    return v


def conv(ev):
    if ev[0] == 'loop':
        ln = ev[1]
        return ('loop', V.LoopNode(ln.j, ln.N, [(c, [conv(x) for x in evs]) for c, evs in ln.paths], ln.uid))
    return (ev[0],) + tuple(as_dicts(x) for x in ev[1:])


def run_file(W, before=0, peek=False):
    """the events of a file read from the start, `before` blocks having been read already"""
    f = W['m'].IACTFile('file')
    if peek:
        f.peek()
    for _ in range(before):
        next(f)
    out = f.__iter__()
    if not isinstance(out, SList):
        out = SList(list(out))
    r = SDict()
    r['events'] = as_dicts(out)
    r['header'], r['input_card'], r['atmospheric_profile'] = f.header, f.input_card, f.atmospheric_profile
    r['n_telescopes'], r['telescope_positions'], r['run_end'] = f.n_telescopes, f.telescope_positions, f.run_end
    return r


# ---------------------------------------------------------------- contract
class Cursor:
    def __init__(self, W):
        self.W, self.p = W, t.ZERO

    def next(self, *names):
        b = self.W['layout'].block(self.p)
        self.p = t.addc(self.p, 1)
        if names and not any(b.__isa__(self.W['classes'].named(n)) for n in names):
            raise core.SpecRaise('Exception')
        return b

    def isa(self, b, n):
        return b.__isa__(self.W['classes'].named(n))


def collect(W, d, x):
    """photons of one telescope"""
    p, e = photons(x)
    tel = x.num('telescope', -(1 << 31), (1 << 31) - 1)
    d['photon_bunches'][tel] = p
    d['emitter'][tel] = e
    d['n_photons'][tel] = x.num('n_photons')
    d['n_bunches'][tel] = x.num('n_bunches')


def empty():
    d = SDict()
    for k in ('photon_bunches', 'emitter', 'n_photons', 'n_bunches'):
        d[k] = SDict()
    return d


def spec_file(W):
    c = Cursor(W)
    out = SDict()
    out['header'] = c.next('RunHeader').parse()
    out['input_card'] = c.next('InputCard').parse()
    b = c.next()
    out['atmospheric_profile'] = None
    if c.isa(b, 'AtmosphericProfile'):
        out['atmospheric_profile'] = b.parse()
        b = c.next()
    if not c.isa(b, 'TelescopeDefinition'):
        raise core.SpecRaise('Exception')
    out['n_telescopes'] = b.num('n_telescopes')
    out['telescope_positions'] = b.parse()
    events = out['events'] = SList()
    while True:
        b = c.next()
        if c.isa(b, 'RunEnd'):
            break
        shower(W, c, b, events)
    out['run_end'] = b.parse()
    return out


def shower(W, c, b, events):
    if not c.isa(b, 'EventHeader'):
        raise core.SpecRaise('Exception')
    hd = head(b)
    o = c.next('ArrayOffsets')
    weight, N = W['offsets'](o)
    table = offsets(o, weight, N)
    lon = par = None
    while True:
        b = c.next()
        if c.isa(b, 'TelescopeData') or c.isa(b, 'TelescopeArrayHead'):
            break
        if c.isa(b, 'Longitudinal'):
            lon = b.parse()
        elif c.isa(b, 'Photons'):
            if not all(eng().decide(t.eq(toT(b.num(k, -(1 << 31), (1 << 31) - 1)), t.const(999))) for k in ('array_id', 'telescope_id')):
                raise core.SpecRaise('Exception')
            par = photons(b)
        elif any(c.isa(b, k) for k in ('EventHeader', 'ArrayOffsets', 'EventEnd', 'RunEnd')):
            raise core.SpecRaise('Exception')
    data = []
    if c.isa(b, 'TelescopeData'):
        if isinstance(N, int):
            for r in range(N):
                if not c.isa(b, 'TelescopeData'):
                    raise core.SpecRaise('Exception')
                d = empty()
                blocks(W, d, b)
                data.append(d)
                b = c.next()
        else:
            first = b.args[0]
            c.p = t.add(first, toT(N))
            b = c.next()
            end = b
    else:
        for r in range(N):
            if not c.isa(b, 'TelescopeArrayHead'):
                raise core.SpecRaise('Exception')
            d = empty()
            while True:
                b = c.next()
                if c.isa(b, 'TelescopeArrayEnd'):
                    break
                if not c.isa(b, 'Photons'):
                    raise core.SpecRaise('Exception')
                collect(W, d, b)
            data.append(d)
            b = c.next()
    if not c.isa(b, 'EventEnd'):
        raise core.SpecRaise('Exception')
    end = b

    def event(r):
        d = empty() if not isinstance(N, int) else data[int(r)]
        if not isinstance(N, int):
            blocks(W, d, W['layout'].block(t.add(first, toT(r))))
        rec = table[r]
        d['reuse_weight'] = rec['weight'] if weight else 1.0
        d['impact_x'], d['impact_y'] = -rec['x'], -rec['y']
        d['reuse'] = r + 1
        d['event_number'] = hd['event_number']
        d['header'] = head(b0)
        d['time_offset'] = o.tok('time_offset')
        d['longitudinal'], d['particles'] = lon, par
        d['end'] = end.parse(hd['version'])
        return d
    b0 = W['layout'].block(t.addc(o.args[0], -1))
    it = range(N) if isinstance(N, int) else loops.SymRange(t.ZERO, toT(N), 1)
    loops.for_(it, lambda r: events.append(event(r)))


def blocks(W, d, b):
    def one(x):
        if x.__isa__(W['classes'].named('Photons')):
            collect(W, d, x)
    loops.for_(b.sub(), one)


# ---------------------------------------------------------------- units
def normal(pre=(), more=()):
    return lambda N: HEADER + [(1, 'EventHeader'), (1, 'ArrayOffsets')] + [(1, p) for p in pre] + [(N, 'TelescopeData'), (1, 'EventEnd')] + [
        x for y in more for x in y] + [(1, 'RunEnd')]


PRE = [(), ('Longitudinal',), ('Photons',), ('Photons', 'Longitudinal'), (None,), ('Longitudinal', None)]


def other(pre):
    """the blocks of unknown class are not the data of the first reuse"""
    def f(e, W):
        for k, c in enumerate(pre):
            if c is None:
                b = W['layout'].block(t.const(5 + k))
                for n in ('TelescopeData', 'TelescopeArrayHead'):
                    e._assume(t.bnot(t.eq(b.class_code(), t.const(W['classes'].num[W['classes'].named(n)]))))
    return f


def u_reuses(pre=0, weight=True):
    """one shower, any number of reuses, any number of telescopes in each"""
    return Unit('IACTFile, any number of reuses, %s' % (PRE[pre],), setup(normal(PRE[pre]), None, weight, other(PRE[pre])), spec_file, run_file, kernel=True)


def u_showers(weight=False, split=False):
    """two showers, in the first everything optional: nothing of it is left in the second"""
    mid = (lambda N: [(N, 'TelescopeData')]) if not split else (lambda N: [(1, 'TelescopeArrayHead'), (1, 'Photons'), (1, 'TelescopeArrayEnd')] * N)

    def layout(N):
        return HEADER + [(1, 'EventHeader'), (1, 'ArrayOffsets'), (1, 'Longitudinal'), (1, 'Photons')] + mid(N) + [
            (1, 'EventEnd'), (1, 'EventHeader'), (1, 'ArrayOffsets')] + mid(N) + [(1, 'EventEnd'), (1, 'RunEnd')]
    return Unit('IACTFile, two showers%s' % (', split' if split else ''), setup(layout, 1 if split else None, weight), spec_file, run_file,
                kernel=True)


def u_again(peek=False, before=0, partial=False):
    """iteration starts with the first shower, whatever has been read before"""
    def code(W):
        if partial:
            f = W['m'].IACTFile('file')
            for _ in f.__iter__():
                pass
        return run_file(W, before, peek)
    return Unit('IACTFile, read before: %s %d' % (peek, before), setup(normal(('Longitudinal',)), 2, True), spec_file, code, kernel=True)


def u_profile():
    return Unit('IACTFile, atmospheric profile', setup(lambda N: HEADER[:2] + [(1, 'AtmosphericProfile')] + HEADER[2:] + normal()(N)[3:], None),
                spec_file, run_file, kernel=True)


def split_layout(tels):
    return lambda N: HEADER + [(1, 'EventHeader'), (1, 'ArrayOffsets')] + [
        x for k in range(N) for x in [(1, 'TelescopeArrayHead')] + [(1, 'Photons')] * tels[k] + [(1, 'TelescopeArrayEnd')]] + [
        (1, 'EventEnd'), (1, 'RunEnd')]


def u_split(tels=(0,), weight=True):
    """one shower in split layout (bounded: these numbers of telescopes)"""
    return Unit('IACTFile, split layout %s' % (tels,), setup(split_layout(tels), len(tels), weight), spec_file, run_file, kernel=True)


def u_place(k, split=False):
    """any block in the k-th place"""
    def layout(N):
        r = [x for x in (split_layout((1, 1)) if split else normal())(N)]
        r = [(1, c) for n, c in r for _ in range(n)]
        r[k] = (1, None)
        return r

    return Unit('IACTFile, any block in place %d%s' % (k, ', split' if split else ''), setup(layout, 2, True), spec_file, run_file, kernel=True)


NPLACES = {False: 9, True: 13}
UNITS = {'C19': [('u_reuses', dict(pre=k, weight=w)) for k in range(len(PRE)) for w in (True, False) if w or k < 2] + [
    ('u_showers', {}), ('u_showers', dict(split=True)), ('u_again', {}), ('u_again', dict(peek=True)), ('u_again', dict(peek=True, before=3)),
    ('u_again', dict(before=2)), ('u_again', dict(partial=True)), ('u_profile', {})] + [
    ('u_split', dict(tels=x, weight=w)) for x, w in (((0,), True), ((1,), False), ((2, 1), True), ((0, 2), True), ((1, 1, 1), False))] + [
    ('u_place', dict(k=k, split=s)) for s in (False, True) for k in range(NPLACES[s])]}
UNITS['C18'] = [('u_showers', {}), ('u_showers', dict(split=True))]
