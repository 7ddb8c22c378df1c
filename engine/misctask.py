"""Versions (C08), type and id mapping (C09), repeated parsing (C20) and truncated payloads (C07) on the real code."""
import random
import struct
import warnings
import numpy as np
from specs import files as F
from .filetask import prop, Scratch, GEN, CHECK, task  # noqa
from . import simtask, runner


def native():
    from . import blocktask
    return blocktask.native()


def paths():
    n, B = native()
    return sorted(B)


# ---------------------------------------------------------------- C08
@prop('C08')
def gen_c08(rng):
    n, B = native()
    p = rng.choice(paths())
    s = B[p]
    if rng.random() < .3:
        g = n.generate(s, rng, rng.choice([1, 3]))
        if g is None:
            return None
        h, pay = g
    else:
        h = n.gen_hdr(rng, s)
        h.version = rng.choice([rng.randrange(4096), rng.randrange(10), max(s['versions']) + 1, 1000 + rng.randrange(3)])
        pay = bytes(rng.randrange(256) if rng.random() < .5 else 0 for _ in range(rng.choice([0, 4, 30, 300])))
        if h.version in s['versions']:
            return None
    return dict(path=p, type=h.type, version=h.version, id=h.id, tel=h.tel, payload=pay.hex())


def unrestricted(s):
    """the format does not restrict the versions of this block: any version is parsed alike"""
    n, B = native()
    bad = [v for v in (77, 4095, 13) if v not in s['versions']]
    for v in bad:
        h = n.gen_hdr(random.Random(1), s)
        h.version = v
        for pay in (b'', bytes(64)):
            e = n.expected(s, h, pay)
            if e is not None and e[0] == 'raise' and e[1] == 'NotImplementedError':
                return False
    return True


@prop('C08')
def check_c08(c):
    n, B = native()
    s = B[c['path']]
    h = n.Hdr(type=c['type'], version=c['version'], id=c['id'], tel=c['tel'])
    pay = bytes.fromhex(c['payload'])
    h.content_size = len(pay)
    if c['version'] in s['versions']:
        exp = n.expected(s, h, pay)
        if exp is None or exp[0] != 'value':
            return None
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            try:
                n.make_object(c['path'], h, pay).parse()
            except NotImplementedError as x:
                return '%s version %d is refused: %s' % (s['name'], c['version'], x)
            except Exception:
                return None
        return None
    if unrestricted(s):
        return None
    try:
        o = n.make_object(c['path'], h, pay)
    except EOFError:
        return None
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        try:
            o.parse()
        except NotImplementedError:
            return None
        except Exception as x:
            return '%s version %d is not refused as unsupported: %s: %s' % (s['name'], c['version'], type(x).__name__, x)
    return '%s version %d is decoded' % (s['name'], c['version'])


# ---------------------------------------------------------------- C09
SPECIAL = {70: 'History', 71: 'HistoryCommandLine', 72: 'HistoryConfig', 75: 'HistoryMeta', 100: 'Histograms', 1200: 'RunHeader',
           1201: 'TelescopeDefinition', 1202: 'EventHeader', 1203: 'ArrayOffsets', 1204: 'TelescopeData', 1205: 'Photons',
           1206: 'CameraLayout', 1207: 'TriggerTime', 1208: 'PhotoElectrons', 1209: 'EventEnd', 1210: 'RunEnd',
           1211: 'Longitudinal', 1212: 'InputCard', 1213: 'TelescopeArrayHead', 1214: 'TelescopeArrayEnd', 1215: 'MCExtraParams',
           1216: 'AtmosphericProfile', 2000: 'RunHeader', 2001: 'MCRunHeader', 2002: 'CameraSettings', 2003: 'CameraOrganization',
           2004: 'PixelSettings', 2005: 'DisabledPixels', 2006: 'CameraSoftwareSettings', 2007: 'PointingCorrection',
           2008: 'DriveSettings', 2009: 'TriggerInformation', 2010: 'ArrayEvent', 2011: 'TelescopeEventHeader', 2012: 'ADCSums',
           2013: 'ADCSamples', 2014: 'ImageParameters', 2015: 'StereoReconstruction', 2016: 'PixelTiming',
           2017: 'PixelCalibration', 2020: 'MCShower', 2021: 'MCEvent', 2022: 'CameraMonitoring', 2023: 'LaserCalibration',
           2024: 'RunStatistics', 2025: 'MCRunStatistics', 2026: 'MCPhotoelectronSum', 2027: 'PixelList', 2028: 'CalibrationEvent',
           2029: 'AuxiliaryDigitalTraces', 2030: 'AuxiliaryAnalogTraces', 2031: 'FSPhot', 2032: 'PixelTriggerTimes',
           2033: 'PixelMonitoring', 2034: 'CalibrationPhotoelectrons'}


def class_of(etype):
    """(class name, telescope id or None) of an object type"""
    if etype in SPECIAL:
        return SPECIAL[etype], None
    for base, nm in ((2100, 'TrackingPosition'), (2200, 'TelescopeEvent')):
        k = etype - base
        if k >= 0 and k % 1000 < 100 and k // 1000 < 10:
            return nm, k // 1000 * 100 + k % 100
    return 'EventIOObject', None


MOD = {k: 'eventio.iact.objects' for k in range(1200, 1217)}
MOD.update({1215: 'eventio.simtel.objects', 100: 'eventio.histograms'})


def check_type(etype):
    import eventio.simtel  # noqa
    from eventio.base import KNOWN_OBJECTS, EventIOObject
    cls = KNOWN_OBJECTS.get(etype, EventIOObject)
    nm, tel = class_of(etype)
    if cls.__name__ != nm:
        return 'type %d is read with %s, not %s' % (etype, cls.__name__, nm)
    m = MOD.get(etype, 'eventio.simtel.objects') if nm != 'EventIOObject' else 'eventio.base'
    if cls.__module__ != m:
        return 'type %d is read with a class of %s' % (etype, cls.__module__)
    if tel is not None:
        if cls.type_to_telid(etype) != tel or cls.telid_to_type(tel) != etype:
            return 'type %d is telescope %r, expected %d' % (etype, cls.type_to_telid(etype), tel)
    return None


def types_task(lo, hi):
    """every object type of [lo, hi)"""
    o = runner.outcome('object types %d..%d' % (lo, hi - 1), status='tested', bounded='')
    for e in range(lo, hi):
        o['cases'] += 1
        o['distinct'] += 1
        d = check_type(e)
        if d:
            o['failures'] = [dict(name='reader of object type', confirmed=True, text=d,
                                  replay=dict(kind='file', prop='C09', case=dict(what='one', type=e)))]
            o['status'] = 'failed'
            break
    return o


@prop('C09')
def gen_c09(rng):
    k = rng.random()
    if k < .3:
        return dict(what='type', lo=rng.randrange(0, 65536 - 256))
    return dict(what='obj', kind=rng.choice(list(IDS)), a=rng.getrandbits(31) * rng.choice([1, 1, 1, -1]), b=rng.randrange(1000), c=rng.getrandbits(7),
                d=rng.getrandbits(16), v=rng.choice([0, 1, 2, 3, 1000]))


def bits(i, lo, n):
    return i >> lo & (1 << n) - 1


def pack_tel(tel):
    return tel & 0xff | (tel >> 8) << 24


IDS = {
    # kind: (type, id from the fields, expected attributes)
    'televent': (lambda c: 2200 + c['b'] % 100 + 1000 * (c['b'] // 100), lambda c: c['a'], lambda c: dict(telescope_id=c['b'], global_count=c['a'])),
    'tracking': (lambda c: 2100 + c['b'] % 100 + 1000 * (c['b'] // 100),
                 lambda c: pack_tel(c['b']) | (c['c'] & 3) << 8,
                 lambda c: dict(telescope_id=c['b'], has_raw=bool(c['c'] & 1), has_cor=bool(c['c'] & 2))),
    'photons': (lambda c: 1205, lambda c: c['b'] + 1000 * (c['d'] % 999), lambda c: dict(telescope_id=c['b'], array_id=c['d'] % 999)),
    'pe': (lambda c: 1208, lambda c: c['b'] + 1000 * (c['d'] % 999), lambda c: dict(telescope_id=c['b'], array_id=c['d'] % 999)),
    'pixellist': (lambda c: 2027, lambda c: c['b'] + 1000000 * (c['c'] % 20), lambda c: dict(telescope_id=c['b'], code=c['c'] % 20)),
    'image': (lambda c: 2014, lambda c: pack_tel(c['b']) | bits(c['d'], 0, 16) << 8, lambda c: dict(telescope_id=c['b'])),
    'monitor': (lambda c: 2022, lambda c: pack_tel(c['b']) | bits(c['d'], 0, 16) << 8, lambda c: dict(telescope_id=c['b'])),
    'samples': (lambda c: 2013, lambda c: bits(c['d'], 0, 12) | c['b'] << 12,
                lambda c: dict(telescope_id=c['b'])),
    'sums': (lambda c: 2012, lambda c: bits(c['d'], 0, 12) | c['b'] << 12 if c['v'] > 1 else bits(c['d'], 0, 12) | (c['b'] & 31) << 25,
             lambda c: dict(telescope_id=c['b'] if c['v'] > 1 else c['b'] & 31)),
    'cal': (lambda c: 2028, lambda c: c['c'], lambda c: dict(type=c['c'])),
    'arr': (lambda c: 2010, lambda c: c['a'], lambda c: dict(event_id=c['a'])),
    'trig': (lambda c: 2009, lambda c: c['a'], lambda c: dict(global_count=c['a'])),
    'run': (lambda c: 2000, lambda c: c['a'], lambda c: dict(run_id=c['a'])),
    'cam': (lambda c: 2002 + c['d'] % 7, lambda c: c['a'], lambda c: dict(telescope_id=c['a'])),
    'teltype': (lambda c: (2011, 2016, 2023, 2032, 2033)[c['d'] % 5], lambda c: c['a'], lambda c: dict(telescope_id=c['a'])),
}


@prop('C09')
def check_c09(c):
    if c['what'] == 'one':
        return check_type(c['type'])
    if c['what'] == 'type':
        for e in range(c['lo'], c['lo'] + 256):
            d = check_type(e)
            if d:
                return d
        return None
    import io
    import eventio.simtel  # noqa
    from eventio.base import EventIOFile
    et, ident, exp = IDS[c['kind']]
    i = ident(c)
    node = F.Node(et(c), bytes(32), None, c['v'] if c['kind'] != 'photons' else 0, i)
    with Scratch() as s, EventIOFile(s.put(node.encode(0, True))) as f:
        o = next(f)
        if type(o).__name__ != class_of(node.etype)[0]:
            return 'type %d is read with %s' % (node.etype, type(o).__name__)
        for k, v in exp(c).items():
            if getattr(o, k) != v:
                return '%s: %s is %r, packed %r (id %#x)' % (type(o).__name__, k, getattr(o, k), v, i)


# ---------------------------------------------------------------- C20
@prop('C20')
def gen_c20(rng, p=None, version=None):
    n, B = native()
    p = p or rng.choice(paths())
    s = B[p]
    if version is not None:
        s = dict(s, versions=(version,))
    g = n.generate(s, rng, rng.choice([1, 3]))
    if g is None:
        return None
    h, pay = g
    ops = []
    for _ in range(rng.randint(1, 5)):
        k = rng.random()
        if k < .35:
            ops.append(['read', rng.choice([-1, 0, 1, 3, 8, 40])])
        elif k < .6:
            ops.append(['seek', rng.choice([0, 0, 1, 4, 12, 13, len(pay), len(pay) + 3]), rng.choice([0, 0, 0, 2])])
        elif k < .65:
            ops.append(['str'])
        elif k < .75 and s['name'] == 'Photons':
            ops.append(['chunk', rng.choice([1, 2, 5]), rng.randint(0, 2)])
        else:
            ops.append(['parse', rng.random() < .3])
    return dict(path=p, type=h.type, version=h.version, id=h.id, tel=h.tel, payload=pay.hex(), ops=ops)


def spoil(v):
    if isinstance(v, dict):
        for x in list(v.values()):
            spoil(x)
        v.clear()
    elif isinstance(v, (list, tuple)):
        for x in v:
            spoil(x)
        if isinstance(v, list):
            v.clear()
    elif isinstance(v, bytearray):
        v.clear()
    elif isinstance(v, np.ndarray) and v.flags.writeable and v.dtype.names is None and v.dtype.kind in 'iufb':
        v[...] = 1


@prop('C20')
def check_c20(c):
    n, B = native()
    s = B[c['path']]
    h = n.Hdr(type=c['type'], version=c['version'], id=c['id'], tel=c['tel'])
    pay = bytes.fromhex(c['payload'])
    h.content_size = len(pay)
    exp = n.expected(s, h, pay)
    if exp is None or exp[0] != 'value':
        return None
    ref = n.check_one(s, h, pay)
    if ref:
        return None                 # wrong even when parsed alone: not this property
    o = n.make_object(c['path'], h, pay)
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        for op in c['ops']:
            if op[0] == 'read':
                try:
                    o.read(op[1])
                except EOFError:
                    pass
            elif op[0] == 'seek':
                o.seek(op[1], op[2])
            elif op[0] == 'str':
                str(o), repr(o)
            elif op[0] == 'chunk':
                g = o.parse(chunksize=op[1])
                if not isinstance(g, np.ndarray):
                    for _, x in zip(range(op[2]), g):
                        pass
            else:
                d = n.check_one(s, h, pay, o)
                if d:
                    return 'parse after %s: %s' % (c['ops'], d)
                if op[1]:
                    spoil(o.parse())
        d = n.check_one(s, h, pay, o)
        if d:
            return 'parse after %s: %s' % (c['ops'], d)


# ---------------------------------------------------------------- C07: blocks
@prop('C07B')
def gen_c07b(rng):
    n, B = native()
    p = rng.choice(paths())
    s = B[p]
    g = n.generate(s, rng, rng.choice([1, 2, 4]))
    if g is None:
        return None
    h, pay = g
    k = rng.randrange(len(pay) + 1)
    return dict(path=p, type=h.type, version=h.version, id=h.id, tel=h.tel, payload=pay.hex(), cut=k, inside=rng.random() < .5)


def needed(s, h, pay):
    """number of payload bytes the format uses; None if it has to be all"""
    n, B = native()
    r = n.Reader(pay)
    all_ = []
    r.at_end = lambda: all_.append(1)
    rest = r.rest

    def rest2(k=0):
        all_.append(1)
        return rest(k)
    r.rest = rest2
    try:
        with np.errstate(all='ignore'):
            s['fn'](r, h)
    except (n.SpecUndefined, n.SpecRaise):
        return 0
    return len(pay) if all_ and False else r.pos


@prop('C07B')
def check_c07b(c):
    import io
    n, B = native()
    s = B[c['path']]
    h = n.Hdr(type=c['type'], version=c['version'], id=c['id'], tel=c['tel'])
    pay = bytes.fromhex(c['payload'])
    h.content_size = len(pay)
    e = n.expected(s, h, pay)
    if e is None or e[0] != 'value':
        return None
    h2 = n.Hdr(**h.__dict__)
    h2.content_size = c['cut']
    need = needed(s, h, pay)
    if c['cut'] >= need and c['inside']:
        return None
    if c['inside']:
        # the object itself is too short; something else follows
        if n.expected(s, h2, pay[:c['cut']]) is not None:
            return None             # also well-formed
        size, data = c['cut'], pay[:c['cut']] + b'\xa5' * 24
    else:
        size, data = len(pay), pay[:c['cut']]
        if c['cut'] == len(pay):
            return None
    cls = n.get_class(c['path'])
    hd = n.make_header(h.type, h.version, h.id, size, 16)
    f = io.BytesIO(b'\x5a' * 16 + data)
    f.seek(16)
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        try:
            o = cls(hd, f)
            if c['inside'] or c['cut'] < need:
                pos = 0
            r = o.parse()
        except Exception:
            return None
    if not c['inside'] and c['cut'] >= need:
        return None                 # only unused padding is missing
    return '%s version %d returns a result from %d of the %d bytes it needs' % (s['name'], h.version, c['cut'], need)
