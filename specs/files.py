"""Files of the eventio format built from trees of objects, and what reading them has to deliver.
Independent of the code under test: only struct and the byte layout."""
import struct

LITTLE = b'\x37\x8a\x1f\xd4'
BIG = LITTLE[::-1]


class Node:
    """an object: type, version, id, flags and either children (only sub-objects) or a payload"""
    def __init__(self, etype, payload=b'', children=None, version=0, id=0, user=False, ext=False, mark=False):
        self.etype, self.payload, self.children = etype, payload, children
        self.version, self.id, self.user, self.ext = version, id, user, ext
        self.mark = mark            # flagged as containing only sub-objects even without children
        self.addr = self.size = self.hsize = self.start = None

    @property
    def sub(self):
        return self.children is not None or self.mark

    def content(self, base):
        if self.children is None:
            return self.payload
        return join(self.children, base, False)

    def encode(self, base, top):
        self.start = base
        self.hsize = 12 + (4 if self.ext else 0) + (4 if top else 0)
        self.addr = base + self.hsize
        c = self.content(self.addr)
        self.size = len(c)
        w = self.etype | (1 << 16 if self.user else 0) | (1 << 17 if self.ext else 0) | self.version << 20
        ln = self.size & 0x3fffffff | (1 << 30 if self.sub else 0)
        h = struct.pack('<IiI', w, self.id, ln)
        if self.ext:
            h += struct.pack('<I', self.size >> 30)
        return (LITTLE if top else b'') + h + c

    def walk(self):
        yield self
        for c in self.children or ():
            yield from c.walk()

    def json(self):
        return [self.etype, self.payload.hex(), None if self.children is None else [c.json() for c in self.children],
                self.version, self.id, self.user, self.ext, self.mark]

    @staticmethod
    def of(j):
        return Node(j[0], bytes.fromhex(j[1]), None if j[2] is None else [Node.of(c) for c in j[2]], *j[3:])


def join(nodes, base=0, top=True):
    out = b''
    for n in nodes:
        out += n.encode(base + len(out), top)
    return out


UNKNOWN = (1, 42, 5000, 4999, 60000, 1999)
CONTAINERS = (10, 70, 1204, 2010, 2034, 2028, 2202, 3205, 2200)


def tree(rng, depth=2, n=4, plain=False):
    """random list of objects; leaves carry random bytes"""
    out = []
    for _ in range(rng.randint(0 if depth < 2 else 1, n)):
        ext = rng.random() < .2
        user = rng.random() < .2
        ver = rng.choice([0, 0, 1, 5, 4095])
        i = rng.choice([0, 1, 7, -1, 2 ** 31 - 1, -2 ** 31, 123456])
        if depth > 0 and rng.random() < .4:
            out.append(Node(rng.choice(CONTAINERS), b'', tree(rng, depth - 1, n, plain), ver, i, user, ext))
        else:
            k = rng.random()
            if k < .15 and not plain:
                s = [bytes(rng.choice(b'abcxyz') for _ in range(rng.randint(0, 5))) for _ in range(rng.randint(0, 3))]
                out.append(Node(1212, struct.pack('<i', len(s)) + b''.join(struct.pack('<h', len(x)) + x for x in s), None,
                                0, i, user, ext))
            elif k < .25 and not plain:
                m = rng.randint(0, 3)
                p = struct.pack('<hhfi', 1, 2, 3.0, m) + bytes(rng.randrange(100) for _ in range(32 * m))
                out.append(Node(1205, p, None, 0, rng.choice([0, 1002]), user, ext))
            elif k < .35 and not plain:
                b = bytes(rng.choice(b'abc') for _ in range(rng.randint(0, 6)))
                out.append(Node(71, struct.pack('<iih', 1, 2, len(b)) + b, None, 0, i, user, ext))
            else:
                p = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 3, 8, 20, 70])))
                if rng.random() < .1:
                    p += LITTLE
                out.append(Node(rng.choice(UNKNOWN), p, None, ver, i, user, ext))
    return out


class Ref:
    """payload access: a position in a byte string"""
    def __init__(self, data):
        self.data, self.pos = data, 0

    def read(self, n):
        n = max(len(self.data) - self.pos, 0) if n < 0 else n
        r = self.data[self.pos:self.pos + n]
        self.pos += len(r)
        return r

    def seek(self, o, w):
        """new position, or None if it has to be refused"""
        if w == 0:
            p = o
        elif w == 1:
            p = self.pos + o
        else:
            p = len(self.data) - min(o, len(self.data))
        if p < 0:
            return None
        self.pos = p
        return p


def same(a, b):
    """equal containers of equal arrays and numbers"""
    import numpy as np
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return False
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype.kind == 'f':
            return bool(np.all((a == b) | ((a != a) & (b != b))))
        if a.dtype.names:
            return all(same(a[k], b[k]) for k in a.dtype.names)
        return bool(np.all(a == b)) if a.dtype.kind != 'O' else all(same(x, y) for x, y in zip(a.ravel(), b.ravel()))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(sorted(a, key=str)) == list(sorted(b, key=str)) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.void) or isinstance(b, np.void):
        return isinstance(a, np.void) and isinstance(b, np.void) and a.dtype == b.dtype and a.tobytes() == b.tobytes()
    try:
        if a is None or b is None:
            return a is b
        if a != a and b != b:
            return True
        return bool(a == b) and isinstance(a, str) == isinstance(b, str)
    except Exception:
        return False


def where(a, b, path=''):
    """description of the first difference"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in b:
            if k not in a:
                return '%s: key %r missing' % (path, k)
        for k in a:
            if k not in b:
                return '%s: unexpected key %r' % (path, k)
            if not same(a[k], b[k]):
                return where(a[k], b[k], '%s[%r]' % (path, k))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if not same(x, y):
                return where(x, y, '%s[%d]' % (path, i))
    return '%s: %.80r, expected %.80r' % (path, a, b)
