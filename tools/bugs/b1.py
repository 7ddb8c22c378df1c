H = '''
import io, struct, sys
import numpy as np
import eventio.simtel.objects as so
import eventio.iact.objects as io_
from eventio.header import parse_header_bytes

def obj(cls, version, id_, payload, type_=None):
    t = type_ if type_ is not None else cls.eventio_type
    h = parse_header_bytes(struct.pack('<IiI', t | version << 20, id_, len(payload)))
    return cls(h, io.BytesIO(payload))
'''
BUGS = [
 dict(id='C11-trigger-mask-v3', property='C11',
  needs='a TriggerInformation block of version 3 written with the misplaced trigger type bits (0x10, 0x20, 0x40)',
  breaks='the misplaced trigger type bits are only moved for version 2',
  edits=[('src/eventio/simtel/objects.py', 'if 2 <= version <= 3:', 'if 2 <= version < 3:')],
  demo=H + '''
p = struct.pack('<iiiiii', 1, 2, 3, 4, 5, 6) + struct.pack('<hhf', 1, 7, 0.5) + struct.pack('<hh', 1, 7)
p += bytes([0x21]) + struct.pack('<fff', 1, 2, 3)
d = obj(so.TriggerInformation, 3, 1, p).parse()
assert list(d['teltrg_type_mask']) == [0x201], d['teltrg_type_mask']
'''),
 dict(id='C12-samples-high-bit', property='C12',
  needs='an unsuppressed ADCSamples block with a sample value of at least 2^15',
  breaks='samples with the highest bit set come out negative',
  edits=[('src/eventio/simtel/objects.py', """            n_gains, n_pixels, n_samples
        ).astype('u2')""", """            n_gains, n_pixels, n_samples
        ).astype('i2')""")],
  demo=H + '''
p = struct.pack('<ihh', 1, 1, 2)
def enc(v):
    u = -2 * v - 1 if v < 0 else 2 * v
    return bytes([0xc0 | u >> 16, u >> 8 & 255, u & 255])
p += enc(40000) + enc(-1)
cls = so.ADCSamples
d = obj(cls, 3, 1 << 12, p).parse()
assert d.dtype == np.uint16 and d.ravel().tolist() == [40000, 39999], d
'''),
 dict(id='C13-noise-layout', property='C13',
  needs='a CameraMonitoring block with pedestals and noise of a camera with more than one gain',
  breaks='the noise values are attributed to other gains and pixels',
  edits=[('src/eventio/simtel/objects.py', """            'noise': read_array(
                byte_stream, 'f4', n_gains * n_pixels
            ).reshape((n_gains, n_pixels)),""", """            'noise': read_array(
                byte_stream, 'f4', n_gains * n_pixels
            ).reshape((n_pixels, n_gains)).T,""")],
  demo=H + '''
p = struct.pack('<hhi', 4, 4, 1) + struct.pack('<ii', 1, 2) + struct.pack('<hhhh', 0, 3, 0, 2)
p += struct.pack('<ii', 3, 4) + struct.pack('<h', 5) + struct.pack('<12f', *range(12))
d = obj(so.CameraMonitoring, 0, 4 << 8 | 1, p).parse()
assert d['noise'].tolist() == [[6, 7, 8], [9, 10, 11]], d['noise']
'''),
 dict(id='C10-nxpix-alias', property='C10',
  needs='a CameraSettings block of version 4 or later with pixels that are not parallel and a common pixel shape',
  breaks='the repeated pixel area is taken from the wrong place when reading is reordered for non-parallel pixels',
  edits=[('src/eventio/simtel/objects.py', """            if not cam['pixels_parallel']:
                cam['nxpix'] = read_array(byte_stream, dtype='<f4', count=n_pixels)
                cam['nypix'] = read_array(byte_stream, dtype='<f4', count=n_pixels)
            else:""", """            if not cam['pixels_parallel']:
                normals = read_array(byte_stream, dtype='<f4', count=2 * n_pixels)
                cam['nxpix'], cam['nypix'] = normals.reshape(n_pixels, 2).T
            else:""")],
  demo=H + '''
n = 3
p = struct.pack('<if', n, 28.0) + struct.pack('<6f', *range(6)) + bytes([0, 0])
p += struct.pack('<6f', *range(10, 16)) + bytes([2, 2]) + struct.pack('<ff', 0.5, 0.25)
p += struct.pack('<if', 9, 3.5) + struct.pack('<f', 0.0)
d = obj(so.CameraSettings, 4, 1, p).parse()
assert d['nxpix'].tolist() == [10, 11, 12] and d['nypix'].tolist() == [13, 14, 15], d['nxpix']
'''),
 dict(id='C14-longitudinal', property='C14',
  needs='a Longitudinal block with more than one distribution',
  breaks='the distributions are interleaved',
  edits=[],
  demo=''),
]
BUGS = [b for b in BUGS if b['edits']]
