H = r'''
import gzip, io, os, shutil, struct, sys, tempfile, warnings
import numpy as np
import eventio
from eventio import EventIOFile, SimTelFile, IACTFile
import eventio.simtel.objects as so
import eventio.iact.objects as io_
from eventio.header import parse_header_bytes
warnings.simplefilter('ignore')

def obj(cls, version, id_, payload, type_=None):
    t = type_ if type_ is not None else cls.eventio_type
    h = parse_header_bytes(struct.pack('<IiI', t | version << 20, id_, len(payload)))
    return cls(h, io.BytesIO(payload))

def blk(t, payload=b'', id=0, version=0, sub=False, top=False):
    return ((b'\x37\x8a\x1f\xd4' if top else b'')
            + struct.pack('<IiI', t | version << 20, id, len(payload) | (1 << 30 if sub else 0)) + payload)

def top(t, payload=b'', id=0, version=0, sub=False):
    return blk(t, payload, id, version, sub, True)

class scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp()
        return lambda name, data: (open(os.path.join(self.d, name), 'wb').write(data), os.path.join(self.d, name))[1]
    def __exit__(self, *a):
        shutil.rmtree(self.d)

def simtel_head(tel=1):
    run = struct.pack('<4i', 1, 0, 0, 0) + struct.pack('<5f', *[0] * 5) + struct.pack('<i', 1) + bytes(80)
    out = top(2000, run)
    for t, v in ((2002, 0), (2003, 1), (2004, 0), (2005, 0), (2006, 0), (2008, 0), (2007, 0)):
        out += top(t, bytes(200), tel, v)
    return out

def mcshower(n=1):
    return top(2020, struct.pack('<i', n) + bytes(40), n, 0)

def mcevent(n=1, shower=1):
    return top(2021, struct.pack('<i', shower) + bytes(12), n, 1)

def array_event(n=1, tels=(1,), track=None, version=0):
    trig = blk(2009, bytes(24), n, 0)
    k = trig
    for t in tels:
        k += blk(2200 + t, blk(2011, bytes(26), t, 0), n, 0, True)
    for t in (tels if track is None else track):
        k += blk(2100 + t, bytes(8), t | 0x100, 0)
    return top(2010, k, n, 0, True)

def pixmon(tel, n_pixels, rate):
    return top(2033, struct.pack('<iih', 1, n_pixels, 1) + struct.pack('<%df' % n_pixels, *[rate] * n_pixels), tel)

def pes(n, tel):
    """TelescopeData with one PhotoElectrons block of version 1: n pixels, no entries"""
    return blk(1204, blk(1208, struct.pack('<iii', 0, n, 0), tel, 1), 0, 0, True)

def corsika(t, **kw):
    d = np.zeros(273, '<f4')
    return d
'''
S = 'src/eventio/simtel/objects.py'
SF = 'src/eventio/simtel/simtelfile.py'
BUGS = [
 dict(id='C16-calib-pe-leak', property='C16',
  needs='two calibration events, photo-electrons only for the first',
  breaks='the photo-electrons of one calibration event also appear in the next one',
  edits=[(SF, """                self.current_event["photoelectrons"] = self._current_calib_pe
                self._current_calib_pe = None
""", """                self.current_event["photoelectrons"] = self._current_calib_pe
""")],
  demo=H + '''
ae = array_event(1)[4:]
f = simtel_head() + top(2034, pes(3, 1), 0, 0, True) + top(2028, ae, 0, 0, True) + top(2028, array_event(2)[4:], 0, 0, True)
with scratch() as w:
    with SimTelFile(w('a', f)) as s:
        ev = list(s)
assert len(ev) == 2 and 'photoelectrons' in ev[0], ev
assert 'photoelectrons' not in ev[1], ev[1]
'''),
 dict(id='C17-skip-empty', property='C17', also=('C16',),
  needs='allowed telescopes that leave an array event without telescope events, and skipping of untriggered events',
  breaks='events of which no telescope is left are delivered although untriggered events are skipped',
  edits=[(SF, "return self.skip_non_triggered and not event.get('telescope_events')",
              "return self.skip_non_triggered and event.get('telescope_events') is None")],
  demo=H + '''
f = simtel_head() + mcshower(1) + mcevent(100) + array_event(100, (1,)) + mcevent(101) + array_event(101, (2,)) + mcevent(102)
with scratch() as w:
    with SimTelFile(w('a', f), allowed_telescopes={1}) as s:
        ev = [e['event_id'] for e in s]
assert ev == [100], ev
'''),
 dict(id='C18-pixmon-alias', property='C18',
  needs='a pixel monitoring block after an event that has been delivered and kept',
  breaks='the pixel monitoring data of delivered events changes when later blocks are read',
  edits=[(SF, "telescope_id: copy(self.pixel_monitorings[telescope_id])", "telescope_id: self.pixel_monitorings[telescope_id]")],
  demo=H + '''
f = (simtel_head() + mcshower(1) + pixmon(1, 2, 5.0) + mcevent(100) + array_event(100) + mcevent(101)
     + pixmon(1, 2, 7.0) + array_event(101))
with scratch() as w:
    with SimTelFile(w('a', f)) as s:
        a = next(s)
        x = a['pixel_monitorings'][1]['nsb_rate'].tolist()
        b = next(s)
assert x == [5.0, 5.0] and a['pixel_monitorings'][1]['nsb_rate'].tolist() == x, a['pixel_monitorings']
assert b['pixel_monitorings'][1]['nsb_rate'].tolist() == [7.0, 7.0]
'''),
 dict(id='C05-lazy-seek', property='C05', also=('C20',),
  needs='several containers are collected first and iterated afterwards',
  breaks='iterating a container starts wherever the file is, if the container itself was not read yet',
  edits=[('src/eventio/base.py', """        self.seek(self._next_header_pos)
        header = read_header(
            self,""", """        if self.tell() != self._next_header_pos:
            self.seek(self._next_header_pos)
        header = read_header(
            self,""")],
  demo=H + '''
f = top(70, blk(71, b'abcd', 1) + blk(71, b'efgh', 2), 0, 0, True) + top(70, blk(71, b'ijkl', 3), 0, 0, True)
with scratch() as w:
    with EventIOFile(w('a', f)) as s:
        objs = list(s)
        ids = [[o.header.id for o in c] for c in objs]
assert ids == [[1, 2], [3]], ids
'''),
 dict(id='C04-seek-end-empty', property='C04',
  needs='an object without payload and a seek relative to its end by more than its size',
  breaks='the reported position becomes negative: reads may return bytes before the payload',
  edits=[('src/eventio/base.py', "            if offset > self.size:\n                offset = self.size\n",
          "            if offset > self.size > 0:\n                offset = self.size\n")],
  demo=H + '''
f = top(5, b'') + top(5, b'abcd')
with scratch() as w:
    with EventIOFile(w('a', f)) as s:
        o = next(s)
        o.seek(4, 2)
        assert o.tell() == 0 and o.read() == b'', o.tell()
'''),
 dict(id='C06-big-seek', property='C06', also=('C05',),
  needs='a seek over more than 64 megabytes in a file read through the decompressor',
  breaks='forward seeks through the pipe stop after 64 megabytes',
  edits=[('src/eventio/base.py', "            self.pos += len(self.pipe.read(to_read))",
          "            self.pos += len(self.pipe.read(min(to_read, 64 * 1024**2)))")],
  demo=H + '''
f = top(5, bytes(65 * 1024**2), 1) + top(5, b'abcd', 2)
with scratch() as w:
    p = w('a.gz', gzip.compress(f, 1))
    with EventIOFile(p, zcat=True) as s:
        ids = [o.header.id for o in s]
assert ids == [1, 2], ids
'''),
 dict(id='C01-version-bits', property='C01', also=('C08',),
  needs='an object with a version number of at least 2048',
  breaks='the highest bit of the version is ignored',
  edits=[('src/eventio/header.pyx', "VERSION_N_BITS = 12", "VERSION_N_BITS = 11")],
  demo=H + '''
for v in (0, 1, 1001, 2047, 2048, 2051, 4095):
    h = parse_header_bytes(struct.pack('<IiI', 7 | v << 20, 1, 0))
    assert h.version == v, (h.version, v)
'''),
 dict(id='C02-seven-bytes', property='C02',
  needs='a variable length integer of seven bytes with its highest bit set',
  breaks='bit 48 of seven byte integers is lost',
  edits=[('src/eventio/var_int.pyx', """            ((v[0] & 0x01) << 48)
            | (v[1] << 40)""", """            (v[1] << 40)""")],
  demo=H + '''
from eventio.var_int import unsigned_varint, unsigned_varint_array
d = bytes([0xfd, 1, 2, 3, 4, 5, 6])
e = 1 << 48 | 0x010203040506
assert unsigned_varint(d) == (e, 7), unsigned_varint(d)
assert int(unsigned_varint_array(d, 1)[0][0]) == e
'''),
 dict(id='C03-four-bytes', property='C03', also=('C12',),
  needs='a four byte delta with its highest bit set',
  breaks='the highest bit of four byte deltas is lost',
  edits=[('src/eventio/var_int.pyx', """                val += (
                    ((v0 & 0x0f) << 23)""", """                val += (
                    ((v0 & 0x07) << 23)""")],
  demo=H + '''
from eventio.var_int import unsigned_varint_arrays_differential as f
a, n = f(bytes([0xe8, 0, 0, 0]), 1, 1)
assert n == 4 and int(a[0, 0]) == 1 << 26, a
'''),
 dict(id='C09-image-telid', property='C09',
  needs='image parameters of a telescope with an id of 512 or more',
  breaks='the telescope id of image parameters loses its higher bits',
  edits=[(S, """        self.telescope_id = (
            (self.header.id & 0xff) | (self.header.id & 0x3f000000) >> 16
        )""", """        self.telescope_id = (
            (self.header.id & 0xff) | (self.header.id & 0x1000000) >> 16
        )""")],
  demo=H + '''
for t in (1, 255, 256, 511, 512, 700, 999):
    o = obj(so.ImageParameters, 6, t & 0xff | (t >> 8) << 24, b'')
    assert o.telescope_id == t, (o.telescope_id, t)
'''),
 dict(id='C21-deep', property='C21',
  needs='containers nested more than eight levels deep',
  breaks='objects below the eighth level are not delivered',
  edits=[('src/eventio/search_utils.py', """    if isinstance(f, EventIOFile) or f.header.only_subobjects:
        for o in f:
            yield o, level""", """    if isinstance(f, EventIOFile) or (f.header.only_subobjects and level < 8):
        for o in f:
            yield o, level""")],
  demo=H + '''
from eventio.search_utils import yield_all_objects_depth_first
d = blk(71, b'abcd', 99)
for i in range(12, 0, -1):
    d = blk(10, d, i, 0, True) if i > 1 else top(10, d, i, 0, True)
with scratch() as w:
    with EventIOFile(w('a', d)) as s:
        ids = [(o.header.id, l) for o, l in yield_all_objects_depth_first(s)]
assert ids == [(i, i - 1) for i in range(1, 13)] + [(99, 12)], ids
'''),
 dict(id='C22-giga', property='C22',
  needs='a size with the suffix G that is not a multiple of what a float can hold exactly, or an M size',
  breaks='M means a million bytes',
  edits=[('src/eventio/scripts/cut_eventio_file.py', "int(size * 1024**2)", "int(size * 1e6)")],
  demo=H + '''
from eventio.scripts.cut_eventio_file import parse_size
assert parse_size('3M') == 3 * 1024**2 and parse_size('1k') == 1024 and parse_size('7') == 7
'''),
 dict(id='C23-short-marker', property='C23',
  needs='a non-empty file that is shorter than the sync marker',
  breaks='the beginning of a marker is taken for eventio data',
  edits=[('src/eventio/file_types.py', "little = marker_bytes == SYNC_MARKER_LITTLE_ENDIAN",
          "little = len(marker_bytes) > 0 and SYNC_MARKER_LITTLE_ENDIAN.startswith(marker_bytes)")],
  demo=H + '''
from eventio.file_types import is_eventio
with scratch() as w:
    for d, e in ((b'', False), (b'\\x37', False), (b'\\x37\\x8a\\x1f', False), (b'\\x37\\x8a\\x1f\\xd4', True)):
        assert is_eventio(w('a', d)) == e, d
'''),
 dict(id='C24-negative-nano', property='C24',
  needs='a time with negative nanoseconds',
  breaks='the nanoseconds of times are read as unsigned',
  edits=[('src/eventio/tools.py', "sec, nano = read_from(f, '<ii')", "sec, nano = read_from(f, '<iI')")],
  demo=H + '''
from eventio.tools import read_time
assert read_time(io.BytesIO(struct.pack('<ii', 5, -7))) == (5, -7)
'''),
 dict(id='C20-rewind-at-end', property='C20',
  needs='part of a longitudinal block is read before it is parsed',
  breaks='parsing continues where reading stopped',
  edits=[('src/eventio/iact/objects.py', """        self.seek(0)
        long = {}
""", """        if self.tell() >= self.size:
            self.seek(0)
        long = {}
""")],
  demo=H + '''
p = struct.pack('<iihhf', 1, 2, 1, 2, 10.0) + struct.pack('<2f', 3, 4) + bytes(20)
o = obj(io_.Longitudinal, 0, 1, p)
a = o.parse()
o.seek(0)
o.read(4)
b = o.parse()
assert b['event_id'] == 1 and b['data'].tolist() == a['data'].tolist() == [[3, 4]], b
'''),
 dict(id='C07-short-array', property='C07', also=('C24',),
  needs='a block whose payload ends inside an array',
  breaks='arrays cut short by the end of the data are returned as if complete',
  edits=[('src/eventio/tools.py', "return np.frombuffer(f.read(count * dt.itemsize), count=count, dtype=dt)",
          "data = f.read(count * dt.itemsize)\n    return np.frombuffer(data, count=len(data) // dt.itemsize, dtype=dt)")],
  demo=H + '''
p = struct.pack('<iii', 3, 1, 2)
try:
    d = obj(so.DisabledPixels, 0, 1, p).parse()
except Exception:
    sys.exit(0)
sys.exit('returned %s' % d)
'''),
 dict(id='C08-adcsums-old', property='C08',
  needs='an ADCSums block of version 0, 1 or 2',
  breaks='old ADCSums blocks are decoded with the layout of version 3',
  edits=[(S, """    def parse(self):
        assert_exact_version(self, 3)
        self.seek(0)
        byte_stream = BytesIO(self.read())

        flags = self.header.id
        raw =""", """    def parse(self):
        assert_max_version(self, 3)
        self.seek(0)
        byte_stream = BytesIO(self.read())

        flags = self.header.id
        raw =""")],
  demo=H + '''
p = struct.pack('<ih', 1, 1) + bytes(4)
assert obj(so.ADCSums, 3, 1 << 12, p).parse().size == 1
for v in (0, 1, 2, 4):
    try:
        obj(so.ADCSums, v, 0, p).parse()
    except NotImplementedError:
        continue
    sys.exit('version %d accepted' % v)
'''),
 dict(id='C10-dtype-cache', property='C10',
  needs='pixel settings of two different versions with the same number of drawers read in one process',
  breaks='the layout of the first version seen is used for the second one',
  edits=[('src/eventio/simtel/pixelset.py', """    if version >= 1:
        dt.extend([
            ('time_slice', 'f4'),
            ('sum_bins', 'i4'),
        ])

    return np.dtype(dt)
""", """    if version >= 1:
        dt.extend([
            ('time_slice', 'f4'),
            ('sum_bins', 'i4'),
        ])

    return _layouts.setdefault(n_drawers, np.dtype(dt))


_layouts = {}
""")],
  demo=H + '''
p = struct.pack('<iiii', 1, 2, 3, 1) + struct.pack('<ii', 9, 1) + struct.pack('<iihh', 4, 1, 5, 6)
a = obj(so.PixelSettings, 0, 1, p + bytes(8)).parse()
b = obj(so.PixelSettings, 1, 1, p + struct.pack('<fi', 2.5, 8)).parse()
assert 'time_slice' not in a and b['time_slice'] == 2.5 and b['sum_bins'] == 8, b
'''),
 dict(id='C14-cy-clip', property='C14',
  needs='a compact photon bunch with a cosine above its scale',
  breaks='direction cosines in y above one are not clipped',
  edits=[('src/eventio/iact/objects.py', "data['cy'] = data['cy'].clip(min=-1., max=1.)", "data['cy'] = data['cy'].clip(min=-1.)")],
  demo=H + '''
p = struct.pack('<hhfi', 0, 1, 1.0, 1) + struct.pack('<8h', 10, 20, 31000, 31000, 5, 6, 7, 400)
ph, em = obj(io_.Photons, 1000, 1, p).parse()
assert ph['cx'][0] == 1.0 and ph['cy'][0] == 1.0, ph
'''),
 dict(id='C15-kind-r', property='C15',
  needs='a histogram of kind r',
  breaks='limits and sums of histograms of kind r are read as integers',
  edits=[('src/eventio/histograms.py', "if hist['type'] in {'R', 'r', 'F', 'D'}:", "if hist['type'] in {'R', 'F', 'D'}:")],
  demo=H + '''
from eventio.histograms import Histograms
p = struct.pack('<h', 1) + b'r' + struct.pack('<h', 1) + b'a' + struct.pack('<ihhii', 1, 1, 0, 0, 0)
p += struct.pack('<iiffff', 0, 0, 1.0, 2.0, 3.0, 4.0)
h = obj(Histograms, 2, 1, p).parse()[0]
assert h['lower_x'] == 1.0 and h['upper_x'] == 2.0 and h['sum_x'] == 3.0, h
'''),
 dict(id='C11-hot-order', property='C11',
  needs='image parameters of version 6 with hot pixels and timing',
  breaks='the timing parameters are read from the wrong place after a hot pixel list',
  edits=[(S, """                tel_image["hot_pixel"], bytes_read = varint_array(data, n_hot)
                byte_stream = BytesIO(data[bytes_read:])""", """                tel_image["hot_pixel"], bytes_read = varint_array(data, n_hot)
                byte_stream = BytesIO(data[n_hot:])""")],
  demo=H + '''
p = bytes([2, 0]) + struct.pack('<6f', *range(6)) + struct.pack('<hf', 1, 2.0)
p += bytes([2]) + struct.pack('<f', 9.0) + bytes([0x80 | 800 >> 8, 800 & 255]) + struct.pack('<5f', 1, 2, 3, 4, 5)
d = obj(so.ImageParameters, 6, 0xc00 | 1, p).parse()
assert d['hot_pixel'].tolist() == [400] and d['tm_slope'] == 1.0 and d['tm_rise'] == 5.0, d
'''),
 dict(id='C19-longitudinal-leak', property='C19',
  needs='a shower without longitudinal data after one that has it',
  breaks='the longitudinal data of an earlier shower is attached to later ones without',
  edits=[('src/eventio/iact/__init__.py', """            longitudinal = None
            particles = None
""", """            particles = None
"""), ('src/eventio/iact/__init__.py', """        while not isinstance(obj, RunEnd):
            check_type(obj, EventHeader)
""", """        longitudinal = None
        while not isinstance(obj, RunEnd):
            check_type(obj, EventHeader)
""")],
  demo=H + '''
def sub(name, *v):
    d = bytearray(273 * 4)
    d[:4] = name
    for i, x in v:
        struct.pack_into('<f', d, 4 * i, x)
    return struct.pack('<i', 273) + bytes(d)
def shower(n, lon):
    out = top(1202, sub(b'EVTH', (1, n), (45, 7.5), (97, 1)), n)
    out += top(1203, struct.pack('<if', 1, 0.0) + struct.pack('<2f', 1, 2), n)
    if lon:
        out += top(1211, struct.pack('<iihhf', n, 0, 1, 1, 10.0) + struct.pack('<f', 4), n)
    out += top(1204, b'', n, 0, True)
    return out + top(1209, sub(b'EVTE', (1, n)), n)
f = top(1200, sub(b'RUNH', (1, 1), (3, 7.5))) + top(1212, struct.pack('<i', 0)) + top(1201, struct.pack('<i', 1) + bytes(16))
f += shower(1, True) + shower(2, False) + top(1210, struct.pack('<i', 3) + b'RUNE' + bytes(8))
with scratch() as w:
    with IACTFile(w('a', f)) as s:
        ev = list(s)
assert len(ev) == 2 and ev[0].longitudinal is not None, ev
assert ev[1].longitudinal is None, ev[1].longitudinal
'''),
]
