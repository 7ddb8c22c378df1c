"""Random sim_telarray and IACT files from well-formed blocks, and the events reading them has to deliver."""
import copy
import random
import struct
import warnings
import numpy as np
from specs import files as F
from specs.files import Node, same, where
from .filetask import prop, Scratch, GEN, CHECK

_N = {}


def native():
    from . import blocktask
    return blocktask.native()


SO, IO = 'eventio.simtel.objects:', 'eventio.iact.objects:'
PATHS = {c: SO + c for c in '''RunHeader MCRunHeader CameraSettings CameraOrganization PixelSettings DisabledPixels
    CameraSoftwareSettings PointingCorrection DriveSettings TriggerInformation TrackingPosition TelescopeEventHeader
    ImageParameters StereoReconstruction PixelTiming PixelList AuxiliaryDigitalTraces AuxiliaryAnalogTraces
    PixelTriggerTimes ADCSums ADCSamples MCShower MCEvent CameraMonitoring LaserCalibration MCPhotoelectronSum
    PixelMonitoring HistoryCommandLine HistoryConfig HistoryMeta'''.split()}
PATHS.update({c: IO + c for c in 'PhotoElectrons Photons InputCard AtmosphericProfile TelescopeDefinition ArrayOffsets '
                                 'Longitudinal'.split()})
PATHS.update(IactRunHeader=IO + 'RunHeader', IactEventHeader=IO + 'EventHeader', EventEnd=IO + 'EventEnd', RunEnd=IO + 'RunEnd',
             Histograms='eventio.histograms:Histograms')
DESC = ('CameraSettings', 'CameraOrganization', 'PixelSettings', 'DisabledPixels', 'CameraSoftwareSettings', 'DriveSettings',
        'PointingCorrection')
KEYS = dict(zip(DESC, ('camera_settings', 'camera_organization', 'pixel_settings', 'disabled_pixels',
                       'camera_software_settings', 'drive_settings', 'pointing_correction')))


def block(rng, name, fix=None, etype=None, maxcount=2, ok=None, tel=None):
    """leaf with a well-formed payload; fix(id) -> id"""
    n, B = native()
    s = B[PATHS[name]]
    cls = n.get_class(PATHS[name])
    for _ in range(200):
        h = n.gen_hdr(rng, s)
        h.tel = tel
        if fix is not None:
            h.id = fix(h.id)
        h.type = etype if etype is not None else cls.eventio_type
        r = n.GenReader(rng, maxcount)
        try:
            with np.errstate(all='ignore'):
                s['fn'](r, h)
        except (n.SpecUndefined, n.SpecRaise):
            continue
        r.trailing = False
        p = r.finish()
        h.content_size = len(p)
        with np.errstate(all='ignore'):
            e = n.expected(s, h, p)
        if e is None or e[0] != 'value' or (ok is not None and not ok(e[1])):
            continue
        node = Node(h.type, p, None, h.version, h.id, False, rng.random() < .1)
        node.name = name
        return node
    raise RuntimeError('no %s' % name)


def path_of(node):
    n = node.etype
    if 2100 <= n and n % 1000 >= 100 and n % 1000 < 200 and n >= 2100:
        return PATHS['TrackingPosition']
    for name, p in PATHS.items():
        if name in ('TrackingPosition',):
            continue
        if native()[0].get_class(p).eventio_type == n:
            return p


def parsed(node):
    """what the parser of the block returns for it alone"""
    n, B = native()
    h = n.Hdr(type=node.etype, version=node.version, id=node.id)
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        o = n.make_object(path_of(node), h, node.payload)
        return o.parse()


def cont(etype, kids, id=0, version=0, rng=None):
    return Node(etype, b'', kids, version, id, False, rng is not None and rng.random() < .1)


TELS = (0, 1, 2, 5, 38, 99, 100, 105, 200, 255)


def tracking(rng, tel):
    flags = rng.randint(1, 3) << 8
    return block(rng, 'TrackingPosition', lambda i: (tel & 0xff) | (tel >> 8) << 24 | flags,
                 2100 + tel % 100 + 1000 * (tel // 100), tel=tel)


def imgid(tel):
    return lambda i: i & 0x7f00ff00 & ~0x3f0000ff | tel & 0xff | (tel >> 8) << 24


def tel_event(rng, tel):
    fx = lambda i: tel
    kids = [block(rng, 'TelescopeEventHeader', fx)]
    k = []
    if rng.random() < .4:
        k.append(block(rng, 'ADCSamples', lambda i: i & 0xfff | tel << 12))
    if rng.random() < .4:
        k.append(block(rng, 'ADCSums', lambda i: i & 0xfff | tel << 12))
    if rng.random() < .5:
        k.append(block(rng, 'ImageParameters', lambda i: i & 0x7fc0ff00 | tel & 0xff))
    if rng.random() < .3:
        k.append(block(rng, 'PixelTiming', fx))
    codes = rng.sample([0, 1, 2, 3], rng.randint(0, 2))
    for c in codes:
        k.append(block(rng, 'PixelList', lambda i: c * 1000000 + tel))
    if rng.random() < .3:
        k.append(block(rng, 'PixelTriggerTimes', fx))
    for a in rng.sample([0, 1, 2], rng.randint(0, 2)):
        k.append(block(rng, rng.choice(['AuxiliaryDigitalTraces', 'AuxiliaryAnalogTraces']), lambda i: a))
    if rng.random() < .1:
        k.append(Node(4999, b'abc'))
    rng.shuffle(k)
    return cont(2200 + tel % 100 + 1000 * (tel // 100), kids + k, rng.choice([0, 1, 77]), rng=rng)


def array_event(rng, tels, eid):
    trig = block(rng, 'TriggerInformation', lambda i: rng.choice([0, eid, eid, eid + 1000]))
    on = [x for x in tels if rng.random() < .6] if rng.random() < .8 else []
    te = [tel_event(rng, x) for x in on]
    tp = [tracking(rng, x) for x in tels if x in on or rng.random() < .4]
    k = te + tp
    if rng.random() < .3:
        rng.shuffle(k)
    if rng.random() < .3:
        k.insert(rng.randint(0, len(k)), block(rng, 'StereoReconstruction'))
    if rng.random() < .1:
        k.insert(rng.randint(0, len(k)), Node(4999, b'x'))
    return cont(2010, [trig] + k, eid, rng=rng)


def tel_data(rng, tels, pe_only=False):
    k = []
    for x in tels:
        if rng.random() < .6:
            k.append(block(rng, 'PhotoElectrons', lambda i: x))
        if rng.random() < .5 and not pe_only:
            k.append(block(rng, 'Photons', lambda i: x))
    rng.shuffle(k)
    return cont(1204, k, rng.choice([0, 1, 100]), rng=rng)


def monitoring(rng, tels):
    x = rng.choice(tels)
    k = rng.choice(['CameraMonitoring', 'LaserCalibration', 'PixelMonitoring'])
    if k == 'CameraMonitoring':
        return block(rng, k, lambda i: i & ~0x3f0080ff & 0x7fffffff | x & 0xff)
    return block(rng, k, lambda i: x)


def simtel(rng):
    """blocks of a file as Nodes"""
    nt = rng.choice([1, 1, 2, 3])
    tels = rng.sample(TELS, nt)
    out = []
    for _ in range(rng.randint(0, 1)):
        out.append(cont(70, [block(rng, rng.choice(['HistoryCommandLine', 'HistoryConfig'])) for _ in range(rng.randint(0, 3))]))
    for i in [-1] + tels:
        if rng.random() < .4:
            out.append(block(rng, 'HistoryMeta', lambda _: i))
    out.append(block(rng, 'RunHeader', maxcount=3, ok=lambda v: v['n_telescopes'] == nt))
    if rng.random() < .6:
        out.append(block(rng, 'MCRunHeader'))
    if rng.random() < .5:
        out.append(block(rng, 'InputCard'))
    if rng.random() < .5:
        out.append(block(rng, 'AtmosphericProfile'))
    order = [(x, d) for x in tels for d in DESC]
    if rng.random() < .5:
        rng.shuffle(order)
    for x, d in order:
        out.append(block(rng, d, lambda i: x))
    eid = rng.choice([1, 100, 7])
    maybe_mon = lambda p=.3: [monitoring(rng, tels) for _ in range(3) if rng.random() < p]
    out += maybe_mon(.6)
    if rng.random() < .4:
        for _ in range(rng.randint(1, 3)):
            if rng.random() < .5:
                kids = [tel_data(rng, tels, True)]
                if rng.random() < .2:
                    kids[0].children.insert(0, Node(4999, b'?'))
                out.append(cont(2034, kids, 0))
            if rng.random() < .8:
                out.append(cont(2028, [array_event(rng, tels, eid)], rng.choice([0, 1, 2]), rng=rng))
            else:
                out.append(array_event(rng, tels, eid))
            eid += 1
            out += maybe_mon(.2)
    for s in range(rng.randint(0, 3)):
        out.append(block(rng, 'MCShower', lambda i: s))
        out += maybe_mon(.1)
        if rng.random() < .3:
            out.append(block(rng, 'Photons', lambda i: 999999))
        for _ in range(rng.randint(0, 3)):
            out.append(block(rng, 'MCEvent', lambda i: eid))
            out += maybe_mon(.15)
            if rng.random() < .4:
                out.append(tel_data(rng, tels))
            if rng.random() < .4:
                out.append(block(rng, 'MCPhotoelectronSum', lambda i: eid))
            out += maybe_mon(.15)
            if rng.random() < .7:
                out.append(array_event(rng, tels, eid))
            out += maybe_mon(.1)
            if rng.random() < .05:
                out.append(Node(4999, b'unknown'))
            if rng.random() < .05:
                out.append(block(rng, 'MCRunHeader'))
            eid += 1
    if rng.random() < .6:
        out.append(block(rng, 'Histograms'))
    return out, tels


# ---------------------------------------------------------------- reference
def tel_of(node):
    e = node.etype
    b = e % 1000 + (0 if e % 1000 < 100 else 0)
    return (e // 1000 - 2) * 100 + e % 100


def is_tel(node, base):
    e = node.etype
    return 2000 <= e and e % 1000 - base in range(100) and e >= 2000 + base


def ref_tel_event(node):
    d = {'pixel_lists': {}}
    simple = {2013: 'adc_samples', 2012: 'adc_sums', 2016: 'pixel_timing', 2014: 'image_parameters', 2032: 'pixel_trigger_times'}
    d['header'] = parsed(node.children[0])
    for k in node.children[1:]:
        if k.etype in simple:
            d[simple[k.etype]] = parsed(k)
        elif k.etype == 2027:
            d['pixel_lists'][k.id // 1000000] = parsed(k)
        elif k.etype in (2029, 2030):
            d.setdefault('aux_traces', {})[k.id] = parsed(k)
    return d


def ref_array(node, allowed):
    d = dict(event_id=node.children[0].id or node.id, trigger_information=parsed(node.children[0]), telescope_events={},
             tracking_positions={})
    for k in node.children[1:]:
        if k.etype == 2015:
            d['stereo_reconstruction'] = parsed(k)
        elif is_tel(k, 200):
            if allowed is None or tel_of(k) in allowed:
                d['telescope_events'][tel_of(k)] = ref_tel_event(k)
        elif is_tel(k, 100):
            if allowed is None or tel_of(k) in allowed:
                d['tracking_positions'][tel_of(k)] = parsed(k)
    return d


def ref_teldata(node):
    d = {}
    for k in node.children:
        tel = k.id % 1000
        v = parsed(k)
        if k.etype == 1208:
            d.setdefault('photoelectrons', {})[tel] = v
        elif k.etype == 1205:
            d.setdefault('photons', {})[tel] = v[0]
            if v[1] is not None:
                d.setdefault('emitter', {})[tel] = v[1]
    return d


def reference(nodes, allowed=None):
    """all events (unfiltered by type or trigger) and the file-wide data, from the whole list of blocks"""
    mon = {2022: {}, 2023: {}, 2033: {}}
    names = {2022: 'camera_monitorings', 2023: 'laser_calibrations', 2033: 'pixel_monitorings'}
    events = []
    shower = particles = pe = None
    info = dict(history=[], mc_run_headers=[], corsika_inputcards=[], atmospheric_profiles=[], telescope_meta={}, global_meta={},
                telescope_descriptions={}, histograms=None, header=None)
    desc = {native()[0].get_class(PATHS[d]).eventio_type: KEYS[d] for d in DESC}
    for n in nodes:
        ev = events[-1] if events else None

        def array(a):
            ev.update(ref_array(a, allowed))
            for t_, nm in names.items():
                ev[nm] = {x: dict(mon[t_].get(x, {})) for x in ev['telescope_events']}
        e = n.etype
        if e == 2021:
            ev = {'type': 'data', 'event_id': n.id, 'mc_shower': shower, 'mc_event': parsed(n)}
            if particles is not None:
                ev['observation_level_particles'] = particles
            events.append(ev)
        elif e == 2020:
            shower, particles = parsed(n), None
        elif e == 2010:
            if shower is None:
                ev = {'type': 'calibration'}
                events.append(ev)
            array(n)
        elif e == 1204:
            ev.update(ref_teldata(n))
        elif e == 2026:
            ev['photoelectron_sums'] = parsed(n)
        elif e == 1205:
            particles = parsed(n)
        elif e in mon:
            tel = n.id & 0xff | (n.id >> 24 & 0x3f) << 8 if e == 2022 else n.id
            mon[e].setdefault(tel, {}).update(parsed(n))
        elif e in desc:
            info['telescope_descriptions'].setdefault(n.id, {})[desc[e]] = parsed(n)
        elif e == 2000:
            info['header'] = parsed(n)
        elif e == 2001:
            info['mc_run_headers'].append(parsed(n))
        elif e == 1212:
            info['corsika_inputcards'].append(parsed(n))
        elif e == 1216:
            info['atmospheric_profiles'].append(parsed(n))
        elif e == 2028:
            ev = {'type': 'calibration', 'calibration_type': n.id}
            events.append(ev)
            array(n.children[0])
            if pe is not None:
                ev['photoelectrons'] = pe
                pe = None
        elif e == 2034:
            pe = {k.id % 1000: parsed(k) for k in n.children[0].children if k.etype == 1208}
        elif e == 70:
            info['history'] += [parsed(k) for k in n.children]
        elif e == 75:
            if n.id == -1:
                info['global_meta'] = parsed(n)
            else:
                info['telescope_meta'][n.id] = parsed(n)
        elif e == 100:
            info['histograms'] = parsed(n)
    return events, info


def with_ids(x):
    return x


def gen_sim(rng):
    nodes, tels = simtel(rng)
    al = None
    if rng.random() < .5:
        al = rng.sample(tels, rng.randint(1, len(tels))) + rng.sample([3, 77], rng.randint(0, 1))
        if rng.random() < .1:
            al = [3]
    return dict(blocks=[n.json() for n in nodes], allowed=al, skip_cal=rng.random() < .3, skip_nt=rng.random() < .5,
                cut=rng.random() < .3 and rng.randrange(1, 400) or 0)


@prop('C16')
def gen_c16(rng):
    c = gen_sim(rng)
    c.update(allowed=None, skip_cal=False, skip_nt=False)
    return c


@prop('C17')
def gen_c17(rng):
    c = gen_sim(rng)
    c.update(cut=0)
    return c


@prop('C18')
def gen_c18(rng):
    return gen_sim(rng)


def header_end(nodes):
    """index behind the block that completes the header"""
    n_tel = None
    n, B = native()
    found = {}
    desc = {n.get_class(PATHS[d]).eventio_type for d in DESC}
    for i, x in enumerate(nodes):
        if x.etype == 2000:
            n_tel = parsed(x)['n_telescopes']
        if x.etype in desc:
            found.setdefault(x.id, set()).add(x.etype)
        if n_tel is not None and sum(len(v) == len(DESC) for v in found.values()) == n_tel:
            return i + 1


def sim_case(c):
    nodes = [Node.of(j) for j in c['blocks']]
    data = F.join(nodes)
    if header_end(nodes) is None:
        return None
    cut = c.get('cut') or 0
    if cut:
        first = nodes[header_end(nodes) - 1]
        k = max(len(data) - cut, first.addr + first.size)
        data = data[:k]
        full = [n for n in nodes if n.addr + n.size <= k]
        part = nodes[len(full)] if len(full) < len(nodes) else None
    else:
        full, part = nodes, None
    return nodes, data, full, part


def run_sim(data, c, each=None):
    from eventio.simtel import SimTelFile
    with Scratch() as s:
        with SimTelFile(s.put(data), skip_non_triggered=c['skip_nt'], skip_calibration=c['skip_cal'],
                        allowed_telescopes=c['allowed']) as f:
            out = []
            for e in f:
                out.append(e)
                if each:
                    each(out)
            info = {k: getattr(f, k) for k in ('history', 'mc_run_headers', 'corsika_inputcards', 'atmospheric_profiles',
                                               'telescope_meta', 'global_meta', 'telescope_descriptions', 'histograms', 'header')}
            for _ in range(2):
                try:
                    e = next(f)
                except StopIteration:
                    continue
                return out + [e], info
    return out, info


def ill_formed(nodes):
    """array data, telescope data or sums without an event to belong to"""
    shower = False
    ev = False
    for n in nodes:
        if n.etype == 2020:
            shower = True
        if n.etype in (2021, 2028) or n.etype == 2010 and not shower:
            ev = True
        if n.etype in (2010, 1204, 2026) and not ev:
            return True
        if n.etype == 2028 and (not n.children or n.children[0].etype != 2010):
            return True
        if n.etype == 2034 and (not n.children or n.children[0].etype != 1204):
            return True
    return False


def compare_events(got, exp, what):
    for i, (a, b) in enumerate(zip(got, exp)):
        if not same(a, b):
            return '%s %d: %s' % (what, i, where(a, b))
    if len(got) != len(exp):
        return '%d %ss delivered, expected %d' % (len(got), what, len(exp))


@prop('C16')
def check_c16(c):
    x = sim_case(c)
    if x is None:
        return None
    nodes, data, full, part = x
    if ill_formed(full):
        return None
    exp, info = reference(full)
    if part is not None and part.etype in (2021, 2028):
        pass                      # the event it starts has no complete block: not delivered
    got, ginfo = run_sim(data, dict(skip_nt=False, skip_cal=False, allowed=None))
    d = compare_events(got, exp, 'event')
    if d:
        return d
    for k in info:
        a, b = ginfo[k], info[k]
        if not same(dict(a) if isinstance(a, dict) else a, b):
            return where(a, b, k)


def keep(e, c):
    if e['type'] == 'calibration':
        return not c['skip_cal']
    return not c['skip_nt'] or bool(e.get('telescope_events'))


def restrict(e, allowed):
    if allowed is None:
        return e
    e = dict(e)
    for k in ('telescope_events', 'tracking_positions', 'camera_monitorings', 'laser_calibrations', 'pixel_monitorings'):
        if k in e:
            e[k] = {t: v for t, v in e[k].items() if t in allowed}
    return e


@prop('C17')
def check_c17(c):
    x = sim_case(c)
    if x is None:
        return None
    nodes, data, full, part = x
    if ill_formed(full):
        return None
    exp, info = run_sim(data, dict(skip_nt=False, skip_cal=False, allowed=None))
    exp = [restrict(e, None if not c['allowed'] else set(c['allowed'])) for e in exp]
    exp = [e for e in exp if keep(e, c)]
    got, ginfo = run_sim(data, c)
    return compare_events(got, exp, 'event')


def clone(v):
    if isinstance(v, dict):
        return {k: clone(x) for k, x in v.items()}
    if isinstance(v, list):
        return [clone(x) for x in v]
    if isinstance(v, tuple):
        return tuple(clone(x) for x in v)
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, bytearray):
        return bytearray(v)
    return v


@prop('C18')
def check_c18(c):
    x = sim_case(c)
    if x is None:
        return None
    nodes, data, full, part = x
    if ill_formed(full):
        return None
    snaps = []
    bad = []

    def each(out):
        for i, s in enumerate(snaps):
            if not same(out[i], s) and not bad:
                bad.append('event %d changes when event %d is read: %s' % (i, len(out) - 1, where(out[i], s)))
        snaps.append(clone(out[-1]))
    out, _ = run_sim(data, c, each)
    for i, s in enumerate(snaps):
        if not same(out[i], s) and not bad:
            bad.append('event %d changes when the rest of the file is read: %s' % (i, where(out[i], s)))
    return bad[0] if bad else None


# ---------------------------------------------------------------- C19
def floats(rng, tag, n=273, **at):
    a = np.zeros(n, '<f4')
    for i in range(n):
        a[i] = rng.choice([0, 1, 2.5, rng.uniform(-10, 10)])
    b = bytearray(a.tobytes())
    b[:4] = tag
    for k, v in at.items():
        struct.pack_into('<f', b, 4 * int(k[1:]), v)
    return bytes(b)


@prop('C19')
def gen_c19(rng):
    nt = rng.choice([1, 2, 3])
    hdr = [Node(1200, struct.pack('<i', 273) + floats(rng, b'RUNH', i3=rng.choice([6.9, 7.4, 7.7]))),
           block(rng, 'InputCard')]
    if rng.random() < .4:
        hdr.append(block(rng, 'AtmosphericProfile'))
    hdr.append(Node(1201, struct.pack('<i', nt) + np.arange(4 * nt, dtype='<f4').tobytes()))
    ev = []
    for k in range(rng.randint(0, 3)):
        nr = rng.choice([1, 1, 2, 3])
        w = rng.random() < .5
        b = [Node(1202, struct.pack('<i', 273) + floats(rng, b'EVTH', i1=float(k + 1), i45=rng.choice([6.9, 7.4, 7.7]))),
             Node(1203, struct.pack('<if', nr, rng.uniform(0, 100)) +
                  np.array([rng.uniform(-1e4, 1e4) for _ in range(nr * (3 if w else 2))], '<f4').tobytes(), None, int(w))]
        if rng.random() < .3:
            b.append(block(rng, 'Longitudinal'))
        if rng.random() < .2:
            b.append(Node(5000, b'??'))
        if rng.random() < .3:
            b.append(block(rng, 'Photons', lambda i: 999999))
        for r in range(nr):
            ph = []
            for x in rng.sample(range(nt), rng.randint(0, nt)):
                p = block(rng, 'Photons', lambda i: r * 1000 + x)
                p.payload = struct.pack('<hh', r, x) + p.payload[4:]
                ph.append(p)
            b.append(['reuse', r, [p.json() for p in ph]])
        b.append(Node(1209, struct.pack('<i', 273) + floats(rng, b'EVTE')))
        ev.append([x if isinstance(x, list) else x.json() for x in b])
    c = dict(header=[n.json() for n in hdr], events=ev, split=rng.random() < .4, broken=None, again=rng.random() < .2,
             end=Node(1210, struct.pack('<i', 3) + b'RUNE' + struct.pack('<ff', 1, 2)).json())
    if ev and rng.random() < .25:
        c['broken'] = [rng.randrange(len(ev)), rng.choice(['header', 'offsets', 'data', 'end', 'extra', 'swap', 'dup', 'end2',
                                                           'particles', 'particles2', 'type1202', 'type1203', 'type1204', 'type1209',
                                                           'type1204', 'photons'])]
        if c['broken'][1].startswith('particles'):
            c['bad'] = block(rng, 'Photons', lambda i: rng.choice([999005, 5999, 0])).json()
        c['other'] = rng.choice([5000, 1211, 1202, 1203, 1209, 1215])
    elif rng.random() < .1:
        c['hdr'] = rng.randrange(len(hdr))
        c['sub'] = rng.choice([block(rng, 'Longitudinal'), rng.choice(hdr), block(rng, 'InputCard'),
                               Node(1202, struct.pack('<i', 273) + floats(rng, b'EVTH', i45=7.4))]).json()
        if c['sub'][0] == hdr[c['hdr']].etype:
            del c['hdr']
    if rng.random() < .3:
        c['before'] = [rng.choice(['next', 'peek', 'event']) for _ in range(rng.randint(1, 3))]
    return c


def iact_nodes(c):
    split = c['split']
    nodes = [Node.of(j) for j in c['header']]
    for k, b in enumerate(c['events']):
        cur = []
        for x in b:
            if x[0] == 'reuse':
                ph = [Node.of(j) for j in x[2]]
                if split:
                    cur.append([Node(1213, b'', None, 0, x[1])] + ph + [Node(1214, b'', None, 0, x[1])])
                else:
                    cur.append([Node(1204, b'', ph, 0, x[1])])
            else:
                cur.append([Node.of(x)])
        if c['broken'] and c['broken'][0] == k:
            what = c['broken'][1]
            ix = lambda t: [i for i, g in enumerate(cur) if g[0].etype in t]
            if what == 'header':
                del cur[ix((1202,))[0]]
            elif what == 'offsets':
                del cur[ix((1203,))[0]]
            elif what == 'data':
                del cur[ix((1204, 1213))[-1]]
            elif what == 'end':
                del cur[ix((1209,))[0]]
            elif what == 'extra':
                i = ix((1204, 1213))[-1]
                cur.insert(i, copy.deepcopy(cur[i]))
            elif what == 'swap':
                i = ix((1209,))[0]
                cur[i], cur[i - 1] = cur[i - 1], cur[i]
            elif what == 'dup':
                cur.insert(0, copy.deepcopy(cur[0]))
            elif what == 'end2':
                cur.append(copy.deepcopy(cur[-1]))
            elif what == 'particles':
                cur.insert(2, [Node.of(c['bad'])])
            elif what == 'particles2':
                cur.insert(2, [Node.of(c['bad'])])
            elif what.startswith('type'):
                o = int(what[4:])
                i = ix((o, 1213 if o == 1204 else o))
                i = i[len(i) // 2]
                cur[i][0].etype = c['other'] if c['other'] not in (o, 1210) else 5000
            elif what == 'photons':
                i = ix((1213,))
                if not i:
                    return None
                cur[i[-1]].insert(1, Node(1211 if c['other'] != 1211 else 5000, b''))
        for g in cur:
            nodes += g
    return nodes + [Node.of(c['end'])]


def ref_iact(c):
    import corsikaio.subblocks as sb
    out = []
    for b in c['events']:
        n = [Node.of(x) if x[0] != 'reuse' else x for x in b]
        hd = parsed(n[0])
        off = n[1]
        nr, toff = struct.unpack('<if', off.payload[:8])
        cols = np.frombuffer(off.payload[8:], '<f4').reshape(3 if off.version else 2, nr)
        lon = par = None
        for x in n[2:]:
            if isinstance(x, Node) and x.etype == 1211:
                lon = parsed(x)
            if isinstance(x, Node) and x.etype == 1205:
                par = parsed(x)
        end = sb.parse_event_end(n[-1].payload[4:], version=hd['version'])
        k = 0
        for x in n:
            if isinstance(x, list):
                ph, em, npn, nb = {}, {}, {}, {}
                for j in x[2]:
                    p = Node.of(j)
                    tel = struct.unpack('<h', p.payload[2:4])[0]
                    ph[tel], em[tel] = parsed(p)
                    npn[tel], nb[tel] = struct.unpack('<fi', p.payload[4:12])
                out.append(dict(event_number=hd['event_number'], header=hd, time_offset=toff, longitudinal=lon, particles=par,
                                end=end, photon_bunches=ph, emitter=em, n_photons=npn, n_bunches=nb, reuse=k + 1,
                                reuse_weight=cols[2][k] if off.version else 1.0, impact_x=-cols[0][k], impact_y=-cols[1][k]))
                k += 1
    return out


@prop('C19')
def check_c19(c):
    from eventio.iact import IACTFile
    for b in c['events']:
        if [x[0] for x in b if x[0] != 'reuse'][:2] != [1202, 1203] or b[-1][0] != 1209 or \
                struct.unpack('<i', bytes.fromhex(b[1][1])[:4])[0] != sum(x[0] == 'reuse' for x in b):
            return None
    nodes = iact_nodes(c)
    if nodes is None:
        return None
    if c.get('hdr') is not None:
        if c['header'][c['hdr']][0] == 1216:
            return None
        nodes[c['hdr']] = Node.of(c['sub'])
        with Scratch() as s:
            try:
                IACTFile(s.put(F.join(nodes)))
            except Exception:
                return None
            return 'a file with a wrong block in place %d is accepted' % c['hdr']
    exp = ref_iact(c)
    with Scratch() as s, IACTFile(s.put(F.join(nodes))) as f:
        if f.n_telescopes != struct.unpack('<i', bytes.fromhex([h for h in c['header'] if h[0] == 1201][0][1])[:4])[0]:
            return 'n_telescopes is %r' % f.n_telescopes
        for h in c['header']:
            at = {1200: 'header', 1212: 'input_card', 1216: 'atmospheric_profile', 1201: 'telescope_positions'}[h[0]]
            if not same(getattr(f, at), parsed(Node.of(h))):
                return '%s differs' % at
        if not any(h[0] == 1216 for h in c['header']) and f.atmospheric_profile is not None:
            return 'atmospheric profile without a block'
        for b in c.get('before', ()):
            try:
                if b == 'next':
                    next(f)
                elif b == 'peek':
                    f.peek()
                else:
                    next(iter(f))
            except Exception:
                pass
        if c['broken']:
            n = sum(sum(x[0] == 'reuse' for x in b) for b in c['events'][:c['broken'][0]])
            got = []
            try:
                for e in f:
                    got.append(e._asdict())
            except StopIteration:
                return 'the block out of place is not an error'
            except Exception:
                d = compare_events(got[:n], exp[:n], 'event')
                if d:
                    return d
                if len(got) > n:
                    m = sum(x[0] == 'reuse' for x in c['events'][c['broken'][0]])
                    ok = c['broken'][1] in ('end2',)
                    if not (ok and len(got) == n + m):
                        return 'events of the broken shower are delivered'
                return None
            return 'file with a block out of place (%s) is read without an error' % c['broken'][1]
        for rep in range(2 if c['again'] else 1):
            got = [e._asdict() for e in f]
            d = compare_events(got, exp, 'event')
            if d:
                return d
        if not same(f.run_end, parsed(nodes[-1])):
            return 'run end differs'
