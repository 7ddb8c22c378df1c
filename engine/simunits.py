"""Step contracts of SimTelFile (C16-C18): from every abstract state, every next block.
The file's blocks are opaque (their parse results are values nothing is known about, their ids are unknown numbers, as
the contracts of the block classes allow); the state the blocks before lead to is described by a record, reached by the
shortest sequence of blocks; the state after the step has to be the state of the record after the step, so that longer
histories follow by induction."""
from . import terms as t
from . import core, block, compare, contracts, loops, opaque
from . import values as V
from .core import Unsupported, eng
from .values import SDict, SList, toT, mkint, freeze
from .shims import Tok
from .fn import Unit
from .objunits import mkheader

SO, IO, HI = 'eventio.simtel.objects', 'eventio.iact.objects', 'eventio.histograms'
MODS = {}
DESC = ('CameraSettings', 'CameraOrganization', 'PixelSettings', 'DisabledPixels', 'CameraSoftwareSettings', 'DriveSettings',
        'PointingCorrection')
MON = {'CameraMonitoring': 'camera_monitorings', 'LaserCalibration': 'laser_calibrations', 'PixelMonitoring': 'pixel_monitorings'}
PART = {'ADCSamples': 'adc_samples', 'ADCSums': 'adc_sums', 'PixelTiming': 'pixel_timing', 'ImageParameters': 'image_parameters',
        'PixelTriggerTimes': 'pixel_trigger_times'}


class Pause(BaseException):
    """the blocks given so far have been read"""


class Feed:
    """what SimTelFile uses of EventIOFile: the objects one after the other"""
    def __init__(self, W, blocks):
        self.W, self.q, self.k = W, list(blocks), 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.k >= len(self.q):
            raise Pause()
        b = self.q[self.k]
        self.k += 1
        if isinstance(b, opaque.Blk):
            return b
        if b[0] == 'end':
            self.k -= 1
            raise StopIteration
        if b[0] == 'eof':
            self.k -= 1
            raise EOFError('File seems to be truncated')
        if b[0] == 'opaque':
            c = make(self.W, B(b[1], subs=[]))
            type(c).__next__ = lambda self: b[2]
            return c
        return make(self.W, b)

    def close(self):
        pass

    def tell(self):
        return 0

    def seek(self, *a):
        return 0


# a block: (class name, {attributes}, value of parse or None, sub-blocks or None, truncated)
def B(cls, value=None, subs=None, cut=False, **attrs):
    return (cls, attrs, value, subs, cut)


def klass(W, name):
    for m in (SO, IO, HI, 'eventio.base'):
        c = getattr(W['ld'].load(m), name, None)
        if c is not None:
            return c
    raise Unsupported('no class %s' % name)


def value(W, v):
    """what parse returns, a new object every time"""
    if isinstance(v, str):
        d = SDict()
        d['value'] = Tok(v)
    elif isinstance(v, dict):
        d = SDict()
        for k, x in v.items():
            d[k] = Tok(x) if isinstance(x, str) else x
    elif isinstance(v, tuple):
        return tuple(Tok(x) if isinstance(x, str) else x for x in v)
    else:
        return v
    if W is not None:
        W['parsed'].append((d, len(d._log)))
    return d


def make(W, b):
    cls, attrs, v, subs, cut = b
    c = klass(W, cls)
    st = {'k': 0}

    def parse(self, *a, **k):
        if v is None:
            raise Unsupported('parse of a block without a value')
        if cut and subs is None:
            raise EOFError('File seems to be truncated')
        return value(W, v)

    def nxt(self):
        if subs is None:
            raise ValueError('Only containers can be iterated')
        if st['k'] >= len(subs):
            if cut:
                raise EOFError('File seems to be truncated')
            raise StopIteration
        st['k'] += 1
        return make(W, subs[st['k'] - 1])
    d = dict(attrs)
    h = dict(id=0, only_subobjects=subs is not None, type=c.eventio_type if isinstance(c.eventio_type, int) else 0)
    for k in list(d):
        if k in ('id', 'version'):
            h[k] = d.pop(k)
    d.update(__init__=lambda self: None, parse=parse, __next__=nxt, __iter__=lambda self: self,
             header=mkheader(**h), __str__=lambda self: 'block', __repr__=lambda self: 'block', __module__=c.__module__)
    return type(c.__name__, (c,), d)()


def sim(W, blocks, **kw):
    """a real SimTelFile over these blocks"""
    m = W['ld'].load('eventio.simtel.simtelfile')
    f = Feed(W, blocks)
    m.EventIOFile = lambda *a, **k: f
    return m.SimTelFile('file', **kw), f


def header(n=1):
    return [B('RunHeader', {'n_telescopes': n, 'value': 'run'})] + [B(d, '%s.%d' % (d, i), telescope_id=100000 + i)
                                                                    for i in range(n) for d in DESC]


def setup(e):
    ld = block.make_loader(True, False)
    a, b, c, d = [t.var('tel.' + x, 0, 65535) for x in 'abcd']
    e._assume(t.bnot(t.eq(a, b)))
    e._assume(t.bnot(t.eq(c, d)))
    W = dict(ld=ld, a=mkint(a), b=mkint(b), c=mkint(c), d=mkint(d), parsed=[])
    base = ld.load('eventio.base')
    for n in ('is_eventio', 'is_gzip', 'is_zstd'):
        setattr(base, n, lambda p: n == 'is_eventio')
    return W


ID = lambda n: mkint(t.var('id.' + n, -(1 << 31), (1 << 31) - 1))


# ---------------------------------------------------------------- blocks with sub-blocks
def array(W, tag, tels, trg=True, stereo=True, cut=None, parts=()):
    """(block, its abstract content): an array event with data of these telescopes"""
    subs = [B('TriggerInformation', tag + '.trg', id=ID(tag + '.trg'))]
    for k, x in enumerate(tels):
        p = parts if k == 0 else ()
        subs.append(B('TelescopeEvent', subs=[B('TelescopeEventHeader', '%s.head%d' % (tag, k), telescope_id=W[x])]
                      + [B(n, '%s.%s%d' % (tag, n, k), telescope_id=W[x]) for n in p], telescope_id=W[x]))
    for k, x in enumerate(tels):
        subs.append(B('TrackingPosition', '%s.track%d' % (tag, k), telescope_id=W[x]))
    if stereo:
        subs.append(B('StereoReconstruction', tag + '.stereo'))
    blk = B('ArrayEvent', subs=subs if cut is None else subs[:cut], cut=cut is not None, id=ID(tag))
    return blk, dict(tag=tag, tels=list(tels), stereo=stereo, parts=tuple(parts))


def array_spec(W, a, allowed):
    """content of an array event, restricted to the allowed telescopes"""
    e = eng()
    tag = a['tag']
    out = SDict()
    i, j = toT(ID(tag)), toT(ID(tag + '.trg'))
    out['event_id'] = mkint(i) if e.decide(t.eq0(j)) else mkint(j)
    out['trigger_information'] = value(None, tag + '.trg')
    te, tp = SDict(), SDict()
    for k, x in enumerate(a['tels']):
        if allowed is not None and not any(e.decide(t.eq(toT(W[x]), toT(y))) for y in allowed):
            continue
        d = SDict()
        d['pixel_lists'] = SDict()
        d['header'] = value(None, '%s.head%d' % (tag, k))
        if k == 0:
            for n in a['parts']:
                d[PART[n]] = value(None, '%s.%s0' % (tag, n))
        te[W[x]] = d
        tp[W[x]] = value(None, '%s.track%d' % (tag, k))
    out['telescope_events'] = te
    out['tracking_positions'] = tp
    if a['stereo']:
        out['stereo_reconstruction'] = value(None, tag + '.stereo')
    return out


def teldata(W, tag, tels=('a', 'b'), pe=True):
    subs = []
    for k, x in enumerate(tels):
        if k == 0 and pe:
            subs.append(B('PhotoElectrons', '%s.pe%d' % (tag, k), telescope_id=W[x]))
        else:
            subs.append(B('Photons', ('%s.ph%d' % (tag, k), None if k % 2 else '%s.em%d' % (tag, k)), telescope_id=W[x]))
    return B('TelescopeData', subs=subs, id=ID(tag)), dict(tag=tag, tels=list(tels), pe=pe)


def teldata_spec(W, d):
    out = SDict()
    for k, x in enumerate(d['tels']):
        if k == 0 and d['pe']:
            out.setdefault('photoelectrons', SDict())[W[x]] = value(None, '%s.pe%d' % (d['tag'], k))
        else:
            out.setdefault('photons', SDict())[W[x]] = Tok('%s.ph%d' % (d['tag'], k))
            if not k % 2:
                out.setdefault('emitter', SDict())[W[x]] = Tok('%s.em%d' % (d['tag'], k))
    return out


def calibpe(W, tag, tels=('a', 'b')):
    subs = [B('PhotoElectrons', '%s.pe%d' % (tag, k), telescope_id=W[x]) for k, x in enumerate(tels)]
    return B('CalibrationPhotoelectrons', subs=[B('TelescopeData', subs=subs)]), dict(tag=tag, tels=list(tels))


def calibpe_spec(W, d):
    out = SDict()
    for k, x in enumerate(d['tels']):
        out[W[x]] = value(None, '%s.pe%d' % (d['tag'], k))
    return out


# ---------------------------------------------------------------- records
class Rec:
    """abstract state of a file being read: what the blocks before amount to"""
    def __init__(self, **kw):
        self.mon0 = []            # monitoring blocks up to the array data of the event being assembled
        self.mon1 = []            # and from then on: (class, telescope, {key: value})
        self.pending = None
        self.shower = None
        self.particles = None
        self.pe = None
        self.misc = []            # descriptions, histories, ...
        self.__dict__.update(kw)

    def copy(self):
        r = Rec(**self.__dict__)
        r.mon0, r.mon1, r.misc = list(self.mon0), list(self.mon1), list(self.misc)
        r.pending = dict(self.pending) if self.pending is not None else None
        return r

    def canon(self, W):
        """blocks that lead to this state"""
        q = header() + list(self.misc) + self.monblocks(W, self.mon0)
        p = self.pending
        sh = pt = None
        if p is not None:
            if p['kind'] == 'bare':
                q.append(p['array'][0])
            elif p['kind'] == 'calib':
                if p['pe'] is not None:
                    q.append(p['pe'][0])
                q.append(B('CalibrationEvent', subs=[p['array'][0]], type=p['ctype']))
            else:
                sh, pt = p['shower'], p['particles']
                q.append(B('MCShower', sh, id=1))
                if pt is not None:
                    q.append(B('Photons', (pt, None), telescope_id=999, array_id=999))
                q.append(B('MCEvent', p['tag'], id=ID(p['tag'])))
                for k in p['order']:
                    q.append(p[k][0] if k != 'pesum' else B('MCPhotoelectronSum', p['pesum']))
        if self.shower is not None and self.shower != sh:
            q.append(B('MCShower', self.shower, id=1))
            pt = None
        if self.particles is not None and self.particles != pt:
            q.append(B('Photons', (self.particles, None), telescope_id=999, array_id=999))
        if self.pe is not None:
            q.append(self.pe[0])
        return q + self.monblocks(W, self.mon1)

    def monblocks(self, W, log):
        return [B(c, v, telescope_id=W[x]) for c, x, v in log]

    # ------------------------------------------------ the event the pending blocks make
    def event(self, W, allowed):
        e = eng()
        p = self.pending
        if p is None:
            return None
        out = SDict()
        if p['kind'] == 'data':
            out['type'] = 'data'
            out['event_id'] = ID(p['tag'])
            out['mc_shower'] = value(None, p['shower'])
            out['mc_event'] = value(None, p['tag'])
            if p['particles'] is not None:
                out['observation_level_particles'] = (Tok(p['particles']), None)
        else:
            out['type'] = 'calibration'
        if p['kind'] == 'calib':
            out['calibration_type'] = p['ctype']
            if p['pe'] is not None:
                out['photoelectrons'] = calibpe_spec(W, p['pe'][1])
        if p.get('array') is not None:
            a = array_spec(W, p['array'][1], allowed)
            for ev in a._log:
                out[ev[1]] = ev[2]
            for cls, key in MON.items():
                m = SDict()
                for tl in a['telescope_events'].keys():
                    d = SDict()
                    for c, x, v in self.mon0:
                        if c == cls and e.decide(t.eq(toT(W[x]), toT(tl))):
                            for k, y in v.items():
                                d[k] = Tok(y)
                    m[tl] = d
                out[key] = m
        if p.get('tel') is not None:
            for ev in teldata_spec(W, p['tel'][1])._log:
                out[ev[1]] = ev[2]
        if p.get('pesum') is not None:
            out['photoelectron_sums'] = value(None, p['pesum'])
        return out


# ---------------------------------------------------------------- steps: (block, record after it, is the pending event delivered)
def fresh_data(r, tag):
    return dict(kind='data', shower=r.shower, particles=r.particles, tag=tag, array=None, tel=None, pesum=None, order=())


def array_variants(W, tag):
    yield array(W, tag, [])
    yield array(W, tag, ['c'], parts=PART)
    yield array(W, tag, ['c', 'd'], stereo=False)


def steps(W, r, n2='2'):
    """every block that can come next"""
    T = lambda x: x + n2
    data = r.pending is not None and r.pending['kind'] == 'data'
    n = r.copy()
    n.pending = fresh_data(r, T('E'))
    n.mon0, n.mon1 = r.mon0 + r.mon1, []
    if r.shower is not None:
        yield 'MCEvent', B('MCEvent', T('E'), id=ID(T('E'))), n, True
        yield 'MCEvent cut', B('MCEvent', T('E'), cut=True, id=ID(T('E'))), r, 'eof'
    n = r.copy()
    n.shower, n.particles = T('S'), None
    yield 'MCShower', B('MCShower', T('S'), id=ID(T('S'))), n, False
    n = r.copy()
    n.particles = T('P')
    yield 'Photons', B('Photons', (T('P'), None), telescope_id=999, array_id=999), n, False
    for k, (blk, a) in enumerate(array_variants(W, T('A'))):
        if r.shower is None:
            n = r.copy()
            n.mon0, n.mon1 = r.mon0 + r.mon1, []
            n.pending = dict(kind='bare', array=(blk, a), order=())
            yield 'ArrayEvent %d' % k, blk, n, True
        elif data and r.pending['array'] is None:
            n = r.copy()
            n.mon0, n.mon1 = r.mon0 + r.mon1, []
            n.pending.update(array=(blk, a), order=tuple(r.pending['order']) + ('array',))
            yield 'ArrayEvent %d' % k, blk, n, False
        ctype = ID(T('ctype'))
        n = r.copy()
        n.mon0, n.mon1 = r.mon0 + r.mon1, []
        n.pending = dict(kind='calib', array=(blk, a), ctype=ctype, pe=r.pe, order=())
        n.pe = None
        yield 'CalibrationEvent %d' % k, B('CalibrationEvent', subs=[blk], type=ctype), n, True
    for cut in (0, 1, 2, 3):
        blk, a = array(W, T('A'), ['c'], cut=cut)
        if r.shower is None or data:
            yield 'ArrayEvent cut %d' % cut, blk, r, 'eof'
        yield 'CalibrationEvent cut %d' % cut, B('CalibrationEvent', subs=[blk], type=ID(T('ctype'))), r, 'eof'
    if data and r.pending['tel'] is None:
        for tels, pe in ((('c', 'd'), True), (('c', 'd'), False), ((), True)):
            blk, d = teldata(W, T('T'), tels, pe)
            n = r.copy()
            n.pending.update(tel=(blk, d), order=tuple(r.pending['order']) + ('tel',))
            yield 'TelescopeData %d %s' % (len(tels), pe), blk, n, False
    if data and r.pending['pesum'] is None:
        n = r.copy()
        n.pending.update(pesum=T('N'), order=tuple(r.pending['order']) + ('pesum',))
        yield 'MCPhotoelectronSum', B('MCPhotoelectronSum', T('N')), n, False
    for tels in (('c', 'd'), ()):
        blk, d = calibpe(W, T('C'), tels)
        n = r.copy()
        n.pe = (blk, d)
        yield 'CalibrationPhotoelectrons %d' % len(tels), blk, n, False
    for c in MON:
        v = {'k1': T('m.' + c), 'k3': T('m3.' + c)}
        n = r.copy()
        n.mon1.append((c, 'c', v))
        yield c, B(c, v, telescope_id=W['c']), n, False
    misc = [B('History', subs=[B('HistoryCommandLine', T('h1')), B('HistoryConfig', T('h2'))]), B('HistoryMeta', T('hm'), id=ID(T('meta'))),
            B('HistoryMeta', T('hg'), id=-1),
            B('MCRunHeader', T('mcrun')), B('InputCard', T('card')), B('AtmosphericProfile', T('atm')), B('EventIOObject', T('unknown')),
            B('CameraSettings', T('cam'), telescope_id=W['c']), B('PointingCorrection', T('pnt'), telescope_id=W['c']),
            B('RunHeader', {'n_telescopes': 1, 'value': T('run2')})]
    for blk in misc:
        n = r.copy()
        n.misc.append(blk)
        yield blk[0] + (' global' if blk[1].get('id') == -1 else ''), blk, n, False
    yield 'Histograms', B('Histograms', T('hist')), None, True
    yield 'end', B('end'), None, 'eof'
    yield 'eof', B('eof'), None, 'eof'


def starts(W):
    """every shape of a record"""
    m0 = [('CameraMonitoring', 'a', {'k1': 'm1a', 'k2': 'm2a'}), ('LaserCalibration', 'a', {'k1': 'l1a'}),
          ('PixelMonitoring', 'b', {'k1': 'p1b'})]
    m1 = [('CameraMonitoring', 'a', {'k2': 'm2a*', 'k3': 'm3a'}), ('LaserCalibration', 'b', {'k1': 'l1b'})]
    two = array(W, 'A1', ['a', 'b'], parts=('ADCSums', 'PixelTiming'))
    none = array(W, 'A1', [], stereo=False)
    pe = calibpe(W, 'C1')
    tel = teldata(W, 'T1')
    yield 'start', Rec(mon1=m0)
    yield 'calibration light', Rec(mon1=m0 + m1, pe=pe)
    yield 'bare array event', Rec(mon0=m0, mon1=m1, pending=dict(kind='bare', array=two, order=()))
    yield 'calibration event', Rec(mon0=m0, mon1=m1, pending=dict(kind='calib', array=two, ctype=ID('ct1'), pe=pe, order=()))
    yield 'dark calibration event', Rec(mon0=m0, pending=dict(kind='calib', array=none, ctype=ID('ct1'), pe=None, order=()), pe=pe)
    yield 'shower', Rec(mon1=m0, shower='S1')
    yield 'shower with particles', Rec(mon1=m0, shower='S1', particles='P1', pe=pe)
    yield 'shower after calibration', Rec(mon0=m0, mon1=m1, shower='S1',
                                          pending=dict(kind='calib', array=two, ctype=ID('ct1'), pe=pe, order=()))
    D = dict(kind='data', shower='S1', tag='E1', array=None, tel=None, pesum=None, particles=None, order=())
    yield 'event', Rec(mon1=m0, shower='S1', pending=D)
    yield 'event with particles', Rec(mon1=m0, shower='S1', particles='P1', pending=dict(D, particles='P1'))
    full = dict(D, particles='P1', array=two, tel=tel, pesum='N1', order=('tel', 'pesum', 'array'))
    yield 'full event', Rec(mon0=m0, mon1=m1, shower='S1', particles='P1', pending=full)
    yield 'untriggered event', Rec(mon0=m0, mon1=m1, shower='S1', pending=dict(D, array=none, order=('array',)))
    yield 'event, next shower', Rec(mon0=m0, mon1=m1, shower='S1b', pending=full)
    yield 'event, next shower with particles', Rec(mon0=m0, shower='S1b', particles='P1b', pending=full)
    yield 'event without array, next shower', Rec(mon1=m0, shower='S1b', pending=dict(D, tel=tel, order=('tel',)))


NSTARTS = 15


# ---------------------------------------------------------------- the contract of one step
SKIP = ('_file', 'path')


def attrs(f):
    return {k: v for k, v in vars(f).items() if k not in SKIP}


def plain(v):
    """native containers as engine values"""
    if isinstance(v, dict) and not isinstance(v, SDict):
        d = SDict()
        for k, x in v.items():
            d[k] = x
        return d
    if isinstance(v, list):
        return SList(v)
    return v


def same_vars(f, g, name):
    a, b = attrs(f), attrs(g)
    if sorted(a) != sorted(b):
        return compare.mismatch(name, 'private attributes')
    for k in sorted(a):
        x, y = plain(a[k]), plain(b[k])
        if y is x:
            continue
        if isinstance(y, (set, frozenset)) or type(y).__name__ == 'SSet':
            continue
        compare.eqv(filled(x), filled(y), '%s: private %s' % (name, k))


def filled(d):
    """without entries a default dictionary would make up on access"""
    if not isinstance(d, SDict) or d.default_factory is None:
        return d
    r = SDict()
    for k, v in d.concrete():
        if not (isinstance(v, SDict) and v.is_native() and not v.concrete()):
            r[k] = v
    return r


def reach(v, out, stop):
    """mutable containers reachable from v, not looking into parse results"""
    if id(v) in stop or id(v) in out:
        return out
    if isinstance(v, (SDict, SList)):
        out[id(v)] = v
        for ev in v._log:
            for x in ev[1:]:
                reach(x, out, stop)
    elif isinstance(v, dict):
        out[id(v)] = v
        for x in v.values():
            reach(x, out, stop)
    elif isinstance(v, (tuple, list, set)):
        if isinstance(v, (list, set)):
            out[id(v)] = v
        for x in v:
            reach(x, out, stop)
    return out


def advance(f):
    """('event', e) | ('more',) | ('stop',)"""
    try:
        return ('event', next(f))
    except Pause:
        return ('more',)
    except StopIteration:
        return ('stop',)


def passes(W, ev, kw):
    """is the event one of those to be delivered?"""
    if ev is None:
        return False
    if ev['type'] == 'data':
        return not (kw.get('skip_non_triggered', True) and not ('telescope_events' in [k for k in ev.keys()]
                                                                and len(ev['telescope_events'].keys()) > 0))
    return not kw.get('skip_calibration', False)


def allowed_of(W, kw):
    x = kw.get('allowed_telescopes')
    return None if not x else [W[y] for y in x]


def step_code(W, r, s, kw):
    name, blk, after, deliver = s
    e = eng()
    del W['parsed'][:]
    kw = dict(kw)
    allowed = allowed_of(W, kw)
    if allowed is not None:
        kw['allowed_telescopes'] = SList(allowed)
    f, q = sim(W, r.canon(W), **kw)
    st = advance(f)
    if st[0] != 'more':
        compare.mismatch('before ' + name, 'an event is delivered too early')
        return
    q.q.append(blk)
    if deliver == 'eof' and blk[0] not in ('end', 'eof'):
        pass
    st = advance(f)
    e.side = 'cmp'
    exp = r.event(W, allowed)
    ok = passes(W, exp, kw)
    if after is None or deliver == 'eof':
        last = blk[0] == 'Histograms'
        if ok:
            if st[0] != 'event':
                return compare.mismatch(name, 'the last event is not delivered')
            compare.eqv(st[1], exp, name + ': last event')
            q.q.append(B('end'))
            e.side = 'code'
            st = advance(f)
            e.side = 'cmp'
        elif last and exp is None:
            q.q.append(B('end'))
            st = advance(f)
        if st[0] != 'stop':
            compare.mismatch(name, 'iteration goes on')
        else:
            e.oblige(t.TRUE, name + ': stops')
        unchanged(W, name)
        return
    if deliver and ok:
        if st[0] != 'event':
            return compare.mismatch(name, 'the event is not delivered')
        compare.eqv(st[1], exp, name + ': event')
    else:
        if st[0] != 'more':
            return compare.mismatch(name, 'an event is delivered' if st[0] == 'event' else 'iteration stops')
        e.oblige(t.TRUE, name + ': no event')
    # ownership: nothing of the event belongs to the file, or to the event being assembled
    if st[0] == 'event':
        stop = {id(d): d for d, _ in W['parsed']}
        own = reach(st[1], {}, stop)
        for k, v in attrs(f).items():
            sh = [i for i in reach(v, {}, stop) if i in own]
            if sh:
                compare.mismatch(name, 'event: private shares a container with .%s of the file' % k)
                break
        else:
            e.oblige(t.TRUE, name + ': ownership')
    else:
        stop = {id(d): d for d, _ in W['parsed']}
        seen = {}
        for k, v in sorted(attrs(f).items()):
            mine = reach(v, {}, stop)
            for i in mine:
                if i in seen:
                    compare.mismatch(name, 'state: private .%s and .%s share a container' % (k, seen[i]))
                seen[i] = k
    unchanged(W, name)
    # the state after the step
    e.side = 'code'
    g, _ = sim(W, after.canon(W), **kw)
    st2 = advance(g)
    e.side = 'cmp'
    if st2[0] != 'more':
        compare.mismatch(name, 'private state after the step')
    same_vars(f, g, name)


def unchanged(W, name):
    """no parse result has been modified"""
    e = eng()
    for d, n in W['parsed']:
        if len(d._log) != n:
            compare.mismatch(name, 'the result of parsing a block is modified afterwards')
            return
    e.oblige(t.TRUE, name + ': parse results')


FILTERS = {'all': dict(skip_non_triggered=False), 'default': {}, 'no calibration': dict(skip_calibration=True),
           'telescopes': dict(skip_non_triggered=False, allowed_telescopes=('a', 'c')),
           'telescopes, triggered, no calibration': dict(allowed_telescopes=('c',), skip_calibration=True),
           'no telescopes given': dict(skip_non_triggered=False, allowed_telescopes=())}


def u_step(k, filt='all'):
    """one step from the k-th state"""
    def code(W):
        name, r = list(starts(W))[k]
        kw = FILTERS[filt]
        e = eng()
        for s in list(steps(W, r)):
            def one(s=s):
                e.side = 'code'
                step_code(W, r, s, kw)
            compare.generic(one)
        return True
    return Unit('SimTelFile step %d (%s)' % (k, filt), setup, lambda W: True, code, kernel=True)


def u_later(k, filt='all'):
    """an event delivered from the k-th state is the same after the next block"""
    def two(W, r, s, s2, kw):
        e = eng()
        f, q = sim(W, r.canon(W), **kw)
        if advance(f)[0] != 'more':
            return
        q.q.append(s[1])
        st = advance(f)
        if st[0] != 'event':
            return
        before = freeze(plain(st[1]))
        q.q.append(s2[1])
        st2 = advance(f)
        e.side = 'cmp'
        compare.eqv(plain(st[1]), before, 'event delivered before ' + s2[0])
        if st2[0] == 'event':
            e.oblige(t.const_b(st2[1] is not st[1]) if hasattr(t, 'const_b') else (t.TRUE if st2[1] is not st[1] else t.FALSE),
                     'event delivered again')
        unchanged(W, s2[0])

    def code(W):
        name, r = list(starts(W))[k]
        e = eng()
        for s in list(steps(W, r)):
            # blocks with telescopes of their own make no difference for the event before
            if s[3] is not True or s[2] is None or s[0][-1] in '12':
                continue
            for s2 in list(steps(W, s[2], '3')):
                def one(s=s, s2=s2):
                    e.side = 'code'
                    del W['parsed'][:]
                    two(W, r, s, s2, dict(FILTERS[filt]))
                compare.generic(one)
        e.oblige(t.TRUE, 'delivered events')
        return True
    return Unit('SimTelFile delivered events %d' % k, setup, lambda W: True, code, kernel=True)


# ---------------------------------------------------------------- functions that read sequences of sub-blocks
def osetup(cls, first=None, known=True):
    def f(e):
        ld = block.make_loader(True, False)
        W = dict(ld=ld)
        C = W['classes'] = opaque.Classes(ld)
        subs = opaque.Blocks(W, 'sub', peel=1 if first else 0, first=C.named(first) if first and known else None)
        W['o'] = opaque.Blk(W, 'o', None, C.named(cls), subs)
        if first:
            e._assume(t.lt(t.ZERO, subs.n))
        W['parse'] = pair_parse
        W['m'] = ld.load('eventio.simtel.simtelfile')
        return W
    return f


def pair_parse(b, a, k):
    """parse of photons: a pair, the second may be missing"""
    if b.__isa__(b.W['classes'].named('Photons')):
        return (b.tok('photons'), b.tok('emitter') if eng().decide(b.flag('has emitter')) else None)
    return NotImplemented


def kinds(W, x, *names):
    """the first of these classes x is of, or None"""
    for n in names:
        if x.__isa__(W['classes'].named(n)):
            return n
    return None


def u_array_event(allowed=False, known=True):
    def spec(W):
        o = W['o']
        te, tp, out = SDict(), SDict(), SDict()
        ok = opaque.Numbers('allowed')

        def body(p):
            i, x = p
            if eng().decide(t.eq0(toT(i))):
                if not x.__isa__(W['classes'].named('TriggerInformation')):
                    raise core.SpecRaise('WrongType')
                j = toT(x.num('id', -(1 << 31), (1 << 31) - 1))
                out['event_id'] = o.header.id if eng().decide(t.eq0(j)) else mkint(j)
                out['trigger_information'] = x.tok('parse')
                return
            k = kinds(W, x, 'TelescopeEvent', 'TrackingPosition', 'StereoReconstruction')
            if k is None:
                return
            if k == 'StereoReconstruction':
                out['stereo_reconstruction'] = x.tok('parse')
                return
            tel = x.num('telescope_id', 0, 65535)
            if allowed and not ok.__symcontains__(tel):
                return
            if k == 'TelescopeEvent':
                te[tel] = x.tok('parse_telescope_event')
            else:
                tp[tel] = x.tok('parse')
        loops.for_(loops.SymEnumerate(o), body)
        if not te.is_native() or not tp.is_native():
            if opaque.Keys(te) - opaque.Keys(tp):
                raise core.SpecRaise('NoTrackingPositions')
        out['telescope_events'] = te
        out['tracking_positions'] = tp
        return out

    def code(W):
        m = W['m']
        m.parse_telescope_event = lambda x: x.tok('parse_telescope_event')
        return m.parse_array_event(W['o'], opaque.Numbers('allowed') if allowed else None)
    return Unit('parse_array_event%s%s' % (' of selected telescopes' if allowed else '', '' if known else ', any first block'),
                osetup('ArrayEvent', 'TriggerInformation', known), spec, code, kernel=True)


def u_array_type():
    """anything but an array event is refused"""
    def setup(e):
        W = osetup('ArrayEvent', 'TriggerInformation')(e)
        C = W['classes']
        W['o'] = opaque.Blk(W, 'o', t.ZERO, None, W['o'].subs)
        e._assume(t.bnot(t.bor(*[t.eq(W['o'].class_code(), t.const(n)) for n in C.codes(C.named('ArrayEvent'))])))
        return W

    def spec(W):
        raise core.SpecRaise('WrongType')
    return Unit('parse_array_event of another block', setup, spec, lambda W: W['m'].parse_array_event(W['o'], None), kernel=True)


TELPARTS = dict(PART, AuxiliaryAnalogTraces='aux_traces', AuxiliaryDigitalTraces='aux_traces', PixelList='pixel_lists')


def u_tel_event(known=True):
    def spec(W):
        out, lists = SDict(), SDict()
        out['pixel_lists'] = lists
        o = W['o']

        def body(p):
            i, x = p
            if eng().decide(t.eq0(toT(i))):
                if not x.__isa__(W['classes'].named('TelescopeEventHeader')):
                    raise core.SpecRaise('WrongType')
                out['header'] = x.tok('parse')
                return
            k = kinds(W, x, *TELPARTS)
            if k is None:
                return
            if k == 'PixelList':
                lists[x.num('code')] = x.tok('parse')
            elif k.startswith('Auxiliary'):
                out.sub('aux_traces', x.header.id, x.tok('parse'))
            else:
                out[TELPARTS[k]] = x.tok('parse')
        loops.for_(loops.SymEnumerate(o), body)
        return out
    return Unit('parse_telescope_event%s' % ('' if known else ', any first block'), osetup('TelescopeEvent', 'TelescopeEventHeader', known),
                spec, lambda W: W['m'].parse_telescope_event(W['o']), kernel=True)


def u_tel_data():
    def spec(W):
        out = SDict()

        def body(x):
            k = kinds(W, x, 'PhotoElectrons', 'Photons')
            if k is None:
                return
            tel = x.num('telescope_id', 0, 65535)
            if k == 'PhotoElectrons':
                out.sub('photoelectrons', tel, x.tok('parse'))
            else:
                p, e = pair_parse(x, (), {})
                out.sub('photons', tel, p)
                if e is not None:
                    out.sub('emitter', tel, e)
        loops.for_(W['o'], body)
        return out

    def code(W):
        return W['m'].parse_telescope_data(W['o'])
    return Unit('parse_telescope_data', osetup('TelescopeData'), spec, code, kernel=True)


def u_monitoring(has=True):
    """the monitoring data of exactly the telescopes of the event, in copies of the event's own"""
    def spec(W):
        out = SDict()
        if has:
            out['telescope_events'] = W['te']
            for k in MON.values():
                d = SDict()
                loops.for_(W['te'], lambda x, d=d, k=k: d.__setitem__(x, Tok(k + '.copy', toT(x))))
                out[k] = d
        out['other'] = Tok('other')
        return out

    def code(W):
        f, _ = sim(W, header())
        advance(f)
        for k in MON.values():
            setattr(f, k, opaque.PerTelescope(k))
        ev = SDict()
        if has:
            ev['telescope_events'] = W['te']
        ev['other'] = Tok('other')
        f._add_monitoring(ev)
        return ev

    def mk(e):
        W = setup(e)
        W['te'] = opaque.Entries('te')
        return W
    return Unit('_add_monitoring' if has else '_add_monitoring without telescopes', mk, spec, code, kernel=True)


def u_history():
    """all entries of a history block are kept, in order"""
    def mk(e):
        W = setup(e)
        C = W['classes'] = opaque.Classes(W['ld'])
        W['o'] = opaque.Blk(W, 'o', None, C.named('History'), opaque.Blocks(W, 'sub'))
        return W

    def spec(W):
        out = SList()
        loops.for_(W['o'], lambda x: out.append(x.tok('parse')))
        return out

    def code(W):
        f, q = sim(W, header())
        advance(f)
        q.q.append(W['o'])
        advance(f)
        return f.history
    return Unit('History of any length', mk, spec, code, kernel=True)


def u_calib_pe():
    """the true photoelectrons of a calibration event, for any number of telescopes"""
    def mk(e):
        W = setup(e)
        C = W['classes'] = opaque.Classes(W['ld'])
        W['o'] = opaque.Blk(W, 'td', None, C.named('TelescopeData'), opaque.Blocks(W, 'sub'))
        return W

    def spec(W):
        d = SDict()

        def body(x):
            if kinds(W, x, 'PhotoElectrons'):
                d[x.num('telescope_id', 0, 65535)] = x.tok('parse')
        loops.for_(W['o'], body)
        return d

    def code(W):
        f, q = sim(W, header(), skip_non_triggered=False)
        advance(f)
        blk, a = array(W, 'A', [])
        q.q += [('opaque', 'CalibrationPhotoelectrons', W['o']), B('CalibrationEvent', subs=[blk], type=7), B('Histograms', 'h')]
        st = advance(f)
        return st[1]['photoelectrons'] if st[0] == 'event' else None
    return Unit('CalibrationPhotoelectrons of any number of telescopes', mk, spec, code, kernel=True)


WITH_EVENT = (2, 3, 4, 7, 8, 9, 10, 11, 12, 13, 14)
UNITS = {
    'C16': [('u_step', dict(k=k)) for k in range(NSTARTS)] + [('u_history', {}), ('u_calib_pe', {})],
    'C17': [('u_array_event', dict(allowed=a, known=k)) for a in (False, True) for k in (True, False)] + [
        ('u_array_type', {}), ('u_tel_event', {}), ('u_tel_event', dict(known=False)), ('u_tel_data', {}), ('u_calib_pe', {})] + [
        ('u_step', dict(k=k, filt=f)) for f in FILTERS if f != 'all' for k in WITH_EVENT],
    'C18': [('u_monitoring', {}), ('u_monitoring', dict(has=False))] + [('u_later', dict(k=k)) for k in WITH_EVENT],
}
