"""Histories of file operations on the real code, judged by specs/files.py: confirmation of failed obligations and the
bounded part of the file-level properties."""
import contextlib
import copy
import gzip
import hashlib
import io
import json
import os
import random
import shutil
import struct
import sys
import tempfile
import time
import warnings
from specs import files as F
from specs.files import Node, Ref, same, where
from . import runner
from .runner import outcome

GEN, CHECK = {}, {}


def prop(p):
    def deco(f):
        (GEN if f.__name__.startswith('gen') else CHECK)[p] = f
        return f
    return deco


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='verif-file-')
        return self

    def put(self, data, name='f.dat', gz=False):
        p = os.path.join(self.d, name)
        with (gzip.open if gz else open)(p, 'wb') as f:
            f.write(data)
        return p

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


HF = ('type', 'version', 'id', 'user', 'extended', 'only_subobjects', 'content_size', 'content_address', 'header_size')


def hdr_diff(o, n):
    h = o.header
    exp = dict(type=n.etype, version=n.version, id=n.id, user=n.user, extended=n.ext, only_subobjects=n.sub,
               content_size=n.size, content_address=n.addr, header_size=n.hsize)
    for k in HF:
        if getattr(h, k) != exp[k]:
            return 'header %s is %r, stored %r' % (k, getattr(h, k), exp[k])
    if o.size != n.size or o.address != n.addr or bool(o.only_subobjects) != n.sub:
        return 'object size, address or flag differs from the header'


def openf(p, **kw):
    import eventio.simtel  # noqa
    import eventio.iact  # noqa
    from eventio import EventIOFile
    return EventIOFile(p, **kw)


# ---------------------------------------------------------------- C04
def pathed(rng, nodes):
    """a random object as list of indices"""
    out = []
    while nodes:
        i = rng.randrange(len(nodes))
        out.append(i)
        ch = nodes[i].children
        if not ch or rng.random() < .3:
            return out
        nodes = ch
    return out


def nonempty(rng, *a, **k):
    while True:
        t = F.tree(rng, *a, **k)
        if t:
            return t


@prop('C04')
def gen_c04(rng):
    t = nonempty(rng)
    ops = []
    for _ in range(rng.randint(1, 12)):
        k = rng.random()
        if k < .5:
            ops.append(['read', rng.choice([-1, -1, 0, 1, 2, 3, 5, 8, 20, 100, -2, None])])
        elif k < .9:
            w = rng.choice([0, 0, 1, 1, 2])
            ops.append(['seek', rng.choice([0, 1, 2, 3, 5, 8, 20, 21, 70, 71, 200] + ([-1, -3, -10, -100] if w else [])), w])
        else:
            ops.append(['tell'])
    return dict(tree=[n.json() for n in t], path=pathed(rng, t), ops=ops, trail=rng.choice([0, 0, 3]))


def walk_to(f, nodes, path):
    src = f
    for i in path:
        for _ in range(i + 1):
            o = next(src)
        n = nodes[i]
        src, nodes = o, n.children
    return o, n


@prop('C04')
def check_c04(c):
    t = [Node.of(j) for j in c['tree']]
    data = F.join(t)
    with Scratch() as s, openf(s.put(data)) as f:
        o, n = walk_to(f, t, c['path'])
        pay = n.content(n.addr)
        r = Ref(pay)
        ini = o.tell()
        if not 0 <= ini <= len(pay):
            return 'initial position %r' % ini
        r.pos = ini
        for op in c['ops']:
            if op[0] == 'read':
                got = o.read() if op[1] is None else o.read(op[1])
                exp = r.read(-1 if op[1] is None else op[1])
                if bytes(got) != exp:
                    return '%s at %d returns %r, payload has %r' % (op, r.pos, bytes(got)[:40], exp[:40])
            elif op[0] == 'seek':
                old = r.pos
                exp = r.seek(op[1], op[2])
                try:
                    got = o.seek(op[1], op[2])
                except Exception as x:
                    if exp is None:
                        continue
                    return '%s at %d: %s: %s' % (op, old, type(x).__name__, x)
                if exp is None:
                    p = o.tell()
                    if p < 0:
                        return '%s at %d accepted, position %d' % (op, old, p)
                    r.pos = p
                elif got != exp:
                    return '%s at %d reports position %r, expected %d' % (op, old, got, exp)
            if o.tell() != r.pos:
                return 'position after %s is %r, expected %d' % (op, o.tell(), r.pos)


# ---------------------------------------------------------------- C05
BIGS = [0, 1, 60, 2 ** 16 + 3, 2 ** 24 + 1, 2 ** 26 + 5, 2 ** 30 - 1, 2 ** 30, 2 ** 31 - 20, 2 ** 31 + 7, 2 ** 32 - 8, 2 ** 32 + 9, 2 ** 33,
        2 ** 34 + 2, 2 ** 36 + 1, 2 ** 38 + 3, 2 ** 40 + 1]


def gen_big(rng):
    """objects with payloads of any size (sparse files)"""
    out = []
    for _ in range(rng.randint(2, 4)):
        if rng.random() < .4:
            out.append([1, rng.randrange(100), [rng.choice(BIGS) for _ in range(rng.randint(1, 3))]])
        else:
            out.append([1, rng.randrange(100), rng.choice(BIGS)])
    return dict(big=out, ops=[])


def sparse(path, objs):
    """write the headers only; returns [(id, address, size, [children])]"""
    with open(path, 'wb') as f:
        def put(pos, i, o, top):
            kids = o[2] if isinstance(o[2], list) else None
            size = sum(16 + x for x in kids) if kids is not None else o[2]
            f.seek(pos)
            h = struct.pack('<IiI', o[0] | 1 << 17, o[1], size & 0x3fffffff | (1 << 30 if kids is not None else 0))
            f.write((F.LITTLE if top else b'') + h + struct.pack('<I', size >> 30))
            a = pos + 16 + (4 if top else 0)
            sub = []
            q = a
            for k, x in enumerate(kids or ()):
                sub.append(put(q, k, [2, k, x], False))
                q += 16 + x
            return (o[1], a, size, sub)
        pos = 0
        out = []
        for i, o in enumerate(objs):
            out.append(put(pos, i, o, True))
            pos = out[-1][1] + out[-1][2]
        f.truncate(pos)
    return out


def check_big(c):
    with Scratch() as s:
        p = os.path.join(s.d, 'big')
        try:
            exp = sparse(p, c['big'])
        except OSError:
            return None

        def walk(it, exp, what):
            got = []
            for k, e in enumerate(exp):
                try:
                    o = next(it)
                except StopIteration:
                    return '%s: stops at object %d' % (what, k)
                if (o.header.id, o.header.content_address, o.header.content_size) != e[:3]:
                    return '%s: object %d has id, address, size %r, stored %r' % (
                        what, k, (o.header.id, o.header.content_address, o.header.content_size), e[:3])
                if e[2] > 40 and not e[3]:
                    o.seek(e[2] - 3)
                    if bytes(o.read(8)) != bytes(3) or o.tell() != e[2]:
                        return '%s: end of object %d is not found' % (what, k)
                got.append(o)
            try:
                o = next(it)
                return '%s: unexpected object %s' % (what, o)
            except StopIteration:
                pass
            for o, e in zip(got, exp):
                if e[3]:
                    d = walk(o, e[3], what + '/%d' % e[0])
                    if d:
                        return d
        with openf(p) as f:
            return walk(f, exp, 'file')


@prop('C05')
def gen_c05(rng):
    if rng.random() < .01:
        return gen_big(rng)
    t = F.tree(rng, rng.choice([1, 2, 3]), rng.choice([2, 4, 6]))
    ops = []
    nh = 1
    for _ in range(rng.randint(2, 30)):
        k = rng.random()
        h = rng.randrange(nh)
        if k < .45:
            ops.append(['next', h if rng.random() < .7 else 0])
            nh += 1
        elif k < .55:
            ops.append(['peek'])
            nh += 1
        elif k < .7:
            ops.append(['read', h, rng.choice([-1, 0, 1, 4, 50])])
        elif k < .85:
            ops.append(['seek', h, rng.choice([0, 1, 5, 40]), rng.choice([0, 0, 1, 2])])
        elif k < .95:
            ops.append(['parse', h])
        else:
            ops.append(['str', h])
    return dict(tree=[n.json() for n in t], ops=ops, sweep=rng.random() < .5)


class Cursor:
    def __init__(self, obj, node, kids):
        self.obj, self.node, self.kids, self.i, self.peeked = obj, node, kids, 0, None

    def next(self):
        if self.i < len(self.kids):
            self.i += 1
            return self.kids[self.i - 1]


def payload_diff(o, n):
    o.seek(0)
    b = bytes(o.read())
    if b != n.content(n.addr):
        return 'payload of %s at %d differs' % (o, n.start)


@prop('C05')
def check_c05(c):
    if 'big' in c:
        return check_big(c)
    t = [Node.of(j) for j in c['tree']]
    data = F.join(t)
    if not data:
        return None
    with Scratch() as s, openf(s.put(data)) as f:
        hs = [Cursor(f, None, t)]

        def step(cu, op):
            exp = cu.next() if cu.kids is not None else None
            try:
                o = next(cu.obj)
            except StopIteration:
                if exp is None and cu.kids is not None:
                    return None
                return '%s stops, object %d expected' % (op, cu.i - 1)
            except ValueError as x:
                if cu.kids is None:
                    return None
                return '%s: %s' % (op, x)
            if exp is None:
                return '%s delivers %s, none is left' % (op, o)
            d = hdr_diff(o, exp)
            if d:
                return '%s (object %d): %s' % (op, cu.i - 1, d)
            if cu.peeked is not None:
                if cu.peeked is not o:
                    return 'the object looked ahead at is not the next one'
                cu.peeked = None
            hs.append(Cursor(o, exp, exp.children if exp.children is not None else [] if exp.sub else None))

        for op in c['ops']:
            cu = hs[op[1]] if len(op) > 1 and op[1] < len(hs) else hs[0]
            if op[0] == 'next':
                d = step(cu, op)
                if d:
                    return d
            elif op[0] == 'peek':
                fc = hs[0]
                o = f.peek()
                exp = fc.kids[fc.i] if fc.i < len(fc.kids) else None
                if (o is None) != (exp is None):
                    return 'peek gives %s, expected %s' % (o, exp and exp.etype)
                if o is not None:
                    d = hdr_diff(o, exp)
                    if d:
                        return 'peek: ' + d
                    if fc.peeked is not None and fc.peeked is not o:
                        return 'peeking twice gives different objects'
                    fc.peeked = o
            elif op[0] == 'read':
                try:
                    cu.obj.read(op[2])
                except EOFError:
                    pass
            elif op[0] == 'seek':
                try:
                    cu.obj.seek(*op[2:])
                except Exception:
                    pass
            elif op[0] == 'parse' and cu.node is not None:
                try:
                    cu.obj.parse()
                except Exception:
                    pass
            elif op[0] == 'str':
                try:
                    str(cu.obj), repr(cu.obj)
                except Exception:
                    pass
        k = 0
        while k < len(hs):
            cu = hs[k]
            if cu.node is not None and c['sweep']:
                d = payload_diff(cu.obj, cu.node)
                if d:
                    return d
            if cu.kids is not None:
                for _ in range(len(cu.kids) - cu.i + 2):
                    d = step(cu, ['next', k])
                    if d:
                        return d
            k += 1


# ---------------------------------------------------------------- C06
PATTERN = bytes((7 * i + 3) % 251 for i in range(251 * 1000))


class VPipe:
    """a pipe with n bytes of a periodic content"""
    def __init__(self, n):
        self.n, self.p = n, 0

    def read(self, k=-1):
        k = self.n - self.p if k is None or k < 0 else min(k, self.n - self.p)
        a, self.p = self.p, self.p + k
        m = len(PATTERN)
        return (PATTERN * ((a % m + k) // m + 1))[a % m:a % m + k]


def check_pipe(c):
    """PipeWrapper over a large pipe against the content by position"""
    from eventio.base import PipeWrapper
    f, r = PipeWrapper(VPipe(c['pipe'])), VPipe(c['pipe'])
    for op in c['ops']:
        old = r.p
        if op[0] == 'read':
            got, exp = f.read(op[1]), r.read(op[1])
            if got != exp:
                return '%s at %d returns %d bytes, plain file %d%s' % (op, old, len(got), len(exp), ', other content' * (len(got) == len(exp)))
        else:
            tgt = op[1] if op[2] == 0 else old + op[1]
            if op[2] == 2 or tgt < old:
                try:
                    f.seek(op[1], op[2])
                except OSError:
                    continue
                return '%s at %d accepted' % (op, old)
            if tgt > r.n:
                continue
            got = f.seek(op[1], op[2])
            r.p = tgt
            if got != tgt:
                return '%s at %d reports %r, plain file %d' % (op, old, got, tgt)
        if f.tell() != r.p:
            return 'position after %s at %d is %r, plain file %d' % (op, old, f.tell(), r.p)


@prop('C06')
def gen_c06(rng):
    if rng.random() < .01:
        big = [0, 1, 4095, 65537, 2 ** 20 + 1, 3 * 2 ** 20]
        return dict(pipe=rng.choice(big) * 6 + rng.randrange(9), ops=[
            ['read', rng.choice(big)] if rng.random() < .4 else ['seek', rng.choice(big), rng.choice([0, 1])]
            for _ in range(rng.randint(1, 8))])
    t = nonempty(rng, 2, 4, plain=True)
    n = len(F.join(t))
    ops = []
    for _ in range(rng.randint(1, 14)):
        k = rng.random()
        if k < .4:
            ops.append(['read', rng.choice([0, 1, 2, 5, 30, 200, 1000] + ([-1] if rng.random() < .2 else []))])
        elif k < .75:
            w = rng.choice([0, 0, 1, 1, 2])
            ops.append(['seek', rng.choice([0, 1, 2, 7, 30, n // 2, n] + ([-1, -5, 0] if w else [])), w])
        elif k < .85:
            ops.append(['tell'])
        else:
            ops.append(['next'])
    return dict(tree=[x.json() for x in t], ops=ops, wrap=rng.random() < .6)


@prop('C06')
def check_c06(c):
    if 'pipe' in c:
        return check_pipe(c)
    t = [Node.of(j) for j in c['tree']]
    data = F.join(t)
    with Scratch() as s:
        if c['wrap']:
            import subprocess as sp
            from eventio.base import PipeWrapper
            p = sp.Popen(['cat', s.put(data)], stdout=sp.PIPE)
            f = PipeWrapper(p.stdout)
        else:
            f = openf(s.put(data, 'f.gz', gz=True))
        try:
            # EventIOFile may have read ahead; a pipe starts at 0
            r = Ref(data)
            r.pos = f.tell()
            if r.pos != 0:
                return 'initial position %r' % r.pos
            k = 0
            for op in c['ops']:
                old = r.pos
                if op[0] == 'read':
                    got, exp = f.read(op[1]), r.read(op[1])
                    if bytes(got) != exp:
                        return '%s at %d returns %r, plain file %r' % (op, old, bytes(got)[:40], exp[:40])
                elif op[0] == 'seek':
                    o, w = op[1], op[2]
                    tgt = o if w == 0 else old + o
                    if w == 2 or tgt < old or o < 0:
                        try:
                            f.seek(o, w)
                        except OSError:
                            if f.tell() != old:
                                return 'refused %s moves the position from %d to %d' % (op, old, f.tell())
                            continue
                        return '%s at %d accepted' % (op, old)
                    if tgt > len(data):
                        continue
                    got = f.seek(o, w)
                    r.pos = tgt
                    if got != tgt:
                        return '%s at %d reports %r, plain file %d' % (op, old, got, tgt)
                elif op[0] == 'next' and not c['wrap']:
                    if k < len(t) and t[k].start >= old:
                        o = next(f)
                        d = hdr_diff(o, t[k])
                        if d:
                            return 'object %d: %s' % (k, d)
                        r.pos = t[k].addr + o.tell()
                        k += 1
                if f.tell() != r.pos:
                    return 'position after %s at %d is %r, plain file %d' % (op, old, f.tell(), r.pos)
        finally:
            f.close()
            if c['wrap']:
                p.stdout.close()
                p.kill()
                p.wait()


# ---------------------------------------------------------------- C07
@prop('C07')
def gen_c07(rng):
    t = nonempty(rng, 2, 3)
    n = len(F.join(t))
    return dict(tree=[x.json() for x in t], cut=rng.randrange(n + 1), gz=rng.random() < .1,
                chunk=rng.choice([-1, -1, 1, 3]))


def expect_eof(fn, what):
    try:
        r = fn()
    except EOFError:
        return None
    except StopIteration:
        return '%s: reported as the regular end' % what
    except Exception as x:
        return '%s: %s: %s instead of EOFError' % (what, type(x).__name__, x)
    return '%s: %r returned although the file ends there' % (what, r)


@prop('C07')
def check_c07(c):
    t = [Node.of(j) for j in c['tree']]
    data = F.join(t)
    k = c['cut']
    if k < 4:
        return None
    with Scratch() as s, openf(s.put(data[:k], 'f.gz' if c['gz'] else 'f', gz=c['gz'])) as f:
        def walk(src, nodes, top):
            for n in nodes:
                if top and k == n.start:
                    try:
                        next(src)
                    except StopIteration:
                        return True
                    return 'file ends before object at %d, but next gives one' % n.start
                if k < n.addr:
                    return expect_eof(lambda: next(src), 'header at %d cut at %d' % (n.start, k)) or True
                if n.etype == 1205 and k < n.addr + 12:
                    return expect_eof(lambda: next(src), 'Photons at %d cut at %d' % (n.start, k)) or True
                o = next(src)
                d = hdr_diff(o, n)
                if d:
                    return d
                pay = n.content(n.addr)
                have = min(len(pay), k - n.addr)
                if n.children is not None:
                    d = walk(o, n.children, False)
                    if d:
                        if d is not True:
                            return d
                if have == len(pay) or not c['gz']:
                    if not c['gz']:
                        o.seek(0)
                        if have < len(pay):
                            if c['chunk'] > 0:
                                got = b''
                                while len(got) + c['chunk'] <= have:
                                    b = o.read(c['chunk'])
                                    if len(b) != c['chunk']:
                                        return 'short read of available bytes'
                                    got += b
                                if got != pay[:len(got)]:
                                    return 'payload differs'
                            d = expect_eof(lambda: o.read(c['chunk'] if c['chunk'] > 0 and have + c['chunk'] <= len(pay) else -1),
                                           'payload of object at %d cut at %d' % (n.start, k))
                            if d:
                                return d
                        elif bytes(o.read()) != pay:
                            return 'payload of complete object differs'
                if have < len(pay):
                    if not c['gz'] and top:
                        return expect_eof_next(src, n)
                    return True
            return None

        def expect_eof_next(src, n):
            try:
                next(src)
            except (EOFError, StopIteration):
                return True
            return 'an object is delivered after the end of the file'
        d = walk(f, t, True)
        return None if d is True else d


# ---------------------------------------------------------------- C21
def classes():
    import eventio.simtel.objects as so
    import eventio.iact.objects as io_
    return [so.History, so.HistoryCommandLine, so.ArrayEvent, so.TelescopeEvent, so.CalibrationEvent, io_.TelescopeData,
            io_.InputCard, io_.Photons, so.CalibrationPhotoelectrons]


TYPES = {70: 'History', 71: 'HistoryCommandLine', 2010: 'ArrayEvent', 2202: 'TelescopeEvent', 3205: 'TelescopeEvent',
         2200: 'TelescopeEvent', 2028: 'CalibrationEvent', 1204: 'TelescopeData', 1212: 'InputCard', 1205: 'Photons',
         2034: 'CalibrationPhotoelectrons'}
CL = ['History', 'HistoryCommandLine', 'ArrayEvent', 'TelescopeEvent', 'CalibrationEvent', 'TelescopeData', 'InputCard',
      'Photons', 'CalibrationPhotoelectrons']
FN = ['find_type', 'collect_toplevel_of_type', 'yield_toplevel_of_type', 'find_all_subobjects', 'yield_all_subobjects',
      'yield_all_objects_depth_first', 'yield_subobjects', 'yield_n_subobjects']


@prop('C21')
def gen_c21(rng):
    t = nonempty(rng, 3, 4)
    if rng.random() < .1:
        for _ in range(rng.randint(1, 16)):
            t = [Node(rng.choice(F.CONTAINERS), b'', t, 0, rng.randrange(9), False, False)]
    ts = [TYPES.get(n.etype) for x in t for n in x.walk() if n.etype in TYPES]
    cls = rng.choice(ts) if ts and rng.random() < .8 else rng.choice(CL)
    st = [rng.choice(ts) if ts and rng.random() < .8 else rng.choice(CL) for _ in range(rng.randint(0, 2))] + [cls]
    if rng.random() < .3:
        # along an existing path
        p, ns, st2 = pathed(rng, t), t, []
        for i in p:
            st2.append(TYPES.get(ns[i].etype))
            ns = ns[i].children
        if all(st2):
            st = st2
    return dict(tree=[n.json() for n in t], fn=rng.choice(FN), cls=cls, structure=st, n=rng.choice([0, 1, 2, 3, 3, 5, 100, -1]),
                root=rng.random() < .25)


def ref_search(c, nodes, root=None):
    nm = lambda n: TYPES.get(n.etype)
    fn = c['fn']
    if fn == 'find_type':
        return [n for n in nodes if nm(n) == c['cls']][:1]
    if fn.endswith('toplevel_of_type'):
        return [n for n in nodes if nm(n) == c['cls']]
    if fn in ('find_all_subobjects', 'yield_all_subobjects'):
        st = c['structure']

        def rec(ns, lv):
            out = []
            for n in ns:
                if nm(n) == st[-1]:
                    out.append(n)
                elif nm(n) == st[lv]:
                    if n.children is None:
                        raise ValueError
                    out += rec(n.children, lv + 1)
            return out
        return rec(nodes, 0)

    def depth(ns, lv):
        for n in ns:
            yield n, lv
            yield from depth(n.children or [], lv + 1)
    if fn == 'yield_all_objects_depth_first':
        return list(depth(nodes, 0))

    def top(ns):
        for n in ns:
            if nm(n) == c['cls']:
                yield n
            else:
                yield from top(n.children or [])
    out = [root] if root is not None and nm(root) == c['cls'] else list(top(nodes))
    if fn == 'yield_n_subobjects':
        out = out[:max(c['n'], 0)]
    return out


@prop('C21')
def check_c21(c):
    import eventio.search_utils as su
    import eventio.simtel.objects as so
    import eventio.iact.objects as io_
    t = [Node.of(j) for j in c['tree']]
    data = F.join(t)
    get = lambda k: getattr(so, k, None) or getattr(io_, k)
    with Scratch() as s, openf(s.put(data)) as f:
        src, nodes, root = f, t, None
        if c['root'] and t[0].children is not None:
            src, nodes, root = next(f), t[0].children, t[0]
        fn = getattr(su, c['fn'])
        try:
            exp = ref_search(c, nodes, root)
        except ValueError:
            return None
        if c['fn'] in ('find_all_subobjects', 'yield_all_subobjects'):
            got = fn(src, [get(k) for k in c['structure']])
        elif c['fn'] == 'yield_all_objects_depth_first':
            got = fn(src)
        elif c['fn'] == 'yield_n_subobjects':
            got = fn(src, get(c['cls']), c['n'])
        elif c['fn'] == 'find_type':
            try:
                got = [fn(src, get(c['cls']))]
            except (StopIteration, ValueError):
                got = []
        else:
            got = fn(src, get(c['cls']))
        # every object is looked at when it is delivered, with other reading in between
        i = -1
        for i, g in enumerate(got):
            if i >= len(exp):
                return '%s: delivers more than the %d matching objects' % (c['fn'], len(exp))
            n = exp[i]
            if c['fn'] == 'yield_all_objects_depth_first':
                if g[1] != n[1]:
                    return 'level %r, expected %d' % (g[1], n[1])
                g, n = g[0], n[0]
            d = hdr_diff(g, n)
            if d:
                return '%s, object %d: %s' % (c['fn'], i, d)
            d = payload_diff(g, n)
            if d:
                return d
        if i + 1 != len(exp):
            return '%s delivers %d objects, expected %d' % (c['fn'], i + 1, len(exp))


# ---------------------------------------------------------------- C22
@prop('C22')
def gen_c22(rng):
    if rng.random() < .15:
        return dict(size=rng.choice(['%d' % rng.getrandbits(rng.choice([3, 10, 40, 70])) + rng.choice(['', 'k', 'M', 'G']),
                                     rng.choice(['', 'k', '1K', '1 k', '-1', '1.5k', '1kk', 'M1', '1m', '1k ', ' 1', '1T', '1\n', '0x10'])]))
    t = nonempty(rng, 1, 5, plain=True)
    data = F.join(t)
    ends = [n.addr + n.size for n in t]
    m = max(0, rng.choice(ends + [0, len(data)]) + rng.choice([0, 0, 1, -1, 3, -5]))
    return dict(tree=[n.json() for n in t], max=m, cut=rng.choice([0, 0, 1, 2, 5, 20]), ingz=rng.random() < .3,
                outgz=rng.random() < .3, unit=rng.random() < .1)


@prop('C22')
def check_c22(c):
    from eventio.scripts import cut_eventio_file as cut
    if 'size' in c:
        s = c['size']
        exp = None
        body, unit = (s[:-1], s[-1]) if s and s[-1] in 'kMG' else (s, '')
        if body and all(ch in '0123456789' for ch in body):
            exp = int(body) * {'': 1, 'k': 1024, 'M': 1024 ** 2, 'G': 1024 ** 3}[unit]
        try:
            got = cut.parse_size(s)
        except Exception:
            return None if exp is None else 'size %r refused' % s
        if exp is None:
            return 'size %r accepted as %r' % (s, got)
        return None if got == exp and isinstance(got, int) else 'size %r means %r, expected %d' % (s, got, exp)
    t = [Node.of(j) for j in c['tree']]
    data = F.join(t)
    data = data[:len(data) - min(c['cut'], len(data) - 4)]
    mx = c['max'] if not c['unit'] else c['max'] // 1024 * 1024
    arg = '%d' % mx if not c['unit'] else '%dk' % (c['max'] // 1024)
    exp = b''
    for n in t:
        e = n.addr + n.size
        if e > mx or e > len(data):
            break
        exp = data[:e]
    with Scratch() as s:
        i = s.put(data, 'in.gz' if c['ingz'] else 'in', gz=c['ingz'])
        o = os.path.join(s.d, 'out.gz' if c['outgz'] else 'out')
        old = sys.argv
        sys.argv = ['cut', i, o, arg]
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                cut.main()
        except BaseException as x:
            return 'max_size %s: %s: %s' % (arg, type(x).__name__, x)
        finally:
            sys.argv = old
        with (gzip.open if c['outgz'] else open)(o, 'rb') as fh:
            got = fh.read()
    if got != exp:
        return 'max_size %s of %d bytes: %d bytes written, expected %d' % (arg, len(data), len(got), len(exp))


# ---------------------------------------------------------------- C23
@prop('C23')
def gen_c23(rng):
    start = rng.choice([F.LITTLE, F.LITTLE, F.BIG, F.LITTLE[:3], b'', b'\x1f', b'\x1f\x8b', b'\x28\xb5\x2f', b'\x28\xb5\x2f\xfd',
                        F.LITTLE[:3] + b'\0', b'\0' + F.LITTLE, b'GIF8', bytes(rng.randrange(256) for _ in range(4)),
                        b'\x1f\x8c', b'\x8b\x1f', b'\x28\xb5\xfd\x2f'])
    return dict(content=(start + bytes(rng.randrange(256) for _ in range(rng.choice([0, 0, 5, 40])))).hex(),
                pack=rng.choice(['', '', 'gz', 'zst']), name=rng.choice(['f', 'f.gz', 'f.zst', 'f.dat', 'f.simtel.gz']),
                zcat=rng.random() < .5, cut=rng.choice([0, 0, 0, 1, 4]))


@prop('C23')
def check_c23(c):
    from eventio import file_types as ft
    raw = bytes.fromhex(c['content'])
    if c['pack'] == 'gz':
        data = gzip.compress(raw)
    elif c['pack'] == 'zst':
        import zstandard
        data = zstandard.ZstdCompressor().compress(raw)
    else:
        data = raw
    if c['cut'] and c['pack']:
        data = data[:c['cut']]
    gz, zs = data[:2] == b'\x1f\x8b', data[:4] == b'\x28\xb5\x2f\xfd'
    intact = bool(c['pack']) and not c['cut']
    if gz or zs:
        ev = intact and raw[:4] in (F.LITTLE, F.BIG)
    else:
        ev = data[:4] in (F.LITTLE, F.BIG)
    with Scratch() as s:
        p = s.put(data, c['name'])
        for nm, exp in (('is_gzip', gz), ('is_zstd', zs)):
            got = getattr(ft, nm)(p)
            if bool(got) != exp:
                return '%s is %r for content %s' % (nm, got, data[:8].hex())
        try:
            got = bool(ft.is_eventio(p))
        except Exception:
            got = False
            if intact or not (gz or zs):
                return 'is_eventio raises for content %s' % data[:8].hex()
        if got != ev:
            return 'is_eventio is %r for content %s (decompressed %s)' % (got, data[:8].hex(), raw[:8].hex())
        try:
            f = openf(p, zcat=c['zcat'])
        except Exception as x:
            return None if not ev else 'opening fails: %s' % x
        try:
            if not ev:
                return 'a file that is not eventio is opened'
            want = raw if gz or zs else data
            got = f.read(len(want) + 10)
            if bytes(got) != want:
                return 'content differs: %r, expected %r' % (bytes(got)[:20], want[:20])
        finally:
            f.close()


# ---------------------------------------------------------------- running
def run_case(p, c, seconds=20):
    runner.note_case(dict(kind='file', prop=p, case=c))
    try:
        with runner.limited(seconds), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return CHECK[p](c)
    except runner.Hang:
        return 'no result within %d s' % seconds
    except MemoryError:
        return 'out of memory'
    except Exception as x:
        import traceback
        tb = traceback.extract_tb(x.__traceback__)
        return '%s: %s (%s:%d)' % (type(x).__name__, x, os.path.basename(tb[-1].filename), tb[-1].lineno)
    finally:
        runner.clear_case()


def replay(r):
    return run_case(r['prop'], r['case'])


def search(p, seconds, count, seed):
    rng = random.Random('%s/%s' % (seed, p))
    end = time.time() + seconds
    n = 0
    seen = set()
    samples = []
    while n < count and time.time() < end:
        c = GEN[p](rng)
        if c is None:
            continue
        n += 1
        js = json.dumps(c, sort_keys=True)
        seen.add(hashlib.sha1(js.encode()).digest())
        if len(samples) < 2:
            samples.append(json.loads(js[:3000]) if len(js) < 3000 else dict(ops=str(c.get('ops'))[:500]))
        d = run_case(p, c)
        if d:
            c, d = shrink(p, c, d)
            return (dict(name='history on the real code', confirmed=True, text=d, replay=dict(kind='file', prop=p, case=c)),
                    n, len(seen), samples)
    return None, n, len(seen), samples


def shrink(p, c, d, seconds=20):
    """drop operations and objects as long as the case still fails"""
    end = time.time() + seconds
    for key in ('ops', 'tree', 'blocks', 'events'):
        i = 0
        while key in c and isinstance(c[key], list) and i < len(c[key]) and time.time() < end:
            x = copy.deepcopy(c)
            del x[key][i]
            try:
                e = run_case(p, x)
            except Exception:
                e = None
            if e and e.split(':')[0] == d.split(':')[0]:
                c, d = x, e
            else:
                i += 1
    return c, d


def task(prop, count, seconds, seed, part=0):
    f, n, k, s = search(prop, seconds, count, '%s.%s' % (seed, part))
    o = outcome('%s histories on the real code (part %d)' % (prop, part), status='tested', cases=n, distinct=k, samples=s)
    if f:
        o['failures'] = [f]
        o['status'] = 'failed'
    return o
