"""Contracts of the search helpers (C21) over trees of unknown shape: the recursive calls are replaced by the contract of
the function called (the list it delivers is a function of the object and the level), so the traversals are proved by
structural induction over the tree.  Contracts of the recognition of file kinds (C23) over unknown file contents, with the
decompressors as unknown functions of the content, and of the cutting script (C22) over files of any number of objects."""
from . import terms as t
from . import core, block, loops
from .core import Unsupported, SpecRaise, SpecUndefined, eng
from .values import SList, SDict, Heap, toT, mkint, mkbool
from .shims import Tok, mkmodule
from . import values as V
from .values import SBytes
from .objunits import File, Pipe, mkheader
from .objunits import MAXLEN
from .fn import Unit


def error(kind, msg=''):
    return SpecRaise(kind.__name__) if eng().side == 'spec' else kind(msg)


class Flags:
    def __init__(self, node):
        self.node = node

    @property
    def only_subobjects(self):
        return mkbool(self.node.only())


class Kind:
    """an unknown kind of objects"""
    def __init__(self, name, *args):
        self.name, self.args = name, args


class Structure:
    """kinds of objects from the outermost to the innermost, any number of them"""
    def __init__(self, name):
        self.name = name
        self.n = t.var(name + '.n', 1, 1 << 30)

    def __getitem__(self, k):
        e = eng()
        k = toT(k)
        if k is None:
            raise Unsupported('part of a structure')
        if e.decide(t.lt(k, t.ZERO)):
            k = t.add(self.n, k)
            if e.decide(t.lt(k, t.ZERO)):
                raise IndexError('list index out of range')
        elif not e.decide(t.lt(k, self.n)):
            raise IndexError('list index out of range')
        return Kind(self.name, k)

    def __symlen__(self):
        return mkint(self.n)


class Node(Heap):
    """a file or an object"""
    def __init__(self, W, name, args=(), file=False):
        self._register()
        self.W, self.name, self.args, self.file = W, name, args, file
        self.pos = t.ZERO

    def _slots(self):
        return {'pos': mkint(self.pos)}

    def _setslot(self, k, v):
        self.pos = toT(v)

    def only(self):
        return t.bapp(self.name + '.only_subobjects', self.args or (t.ZERO,))

    def __getattr__(self, k):
        if k == 'header':
            if self.file:
                raise AttributeError('header')
            return Flags(self)
        raise AttributeError(k)

    def __isa__(self, k):
        W = self.W
        if isinstance(k, (list, SList, tuple)):
            raise TypeError('isinstance() arg 2 must be a type')
        if k is W['EventIOFile']:
            return self.file
        if k is W['EventIOObject']:
            return not self.file
        if not isinstance(k, Kind):
            return False
        if self.file:
            return False
        return eng().decide(t.bapp('isa ' + self.name + ' ' + k.name, (self.args or (t.ZERO,)) + (k.args or (t.ZERO,))))

    def child(self, i):
        return Node(self.W, self.name + '.sub', self.args + (i,))

    @property
    def n(self):
        return t.app(self.name + '.n', self.args, 0, 1 << 40) if self.args else t.var(self.name + '.n', 0, 1 << 40)

    def readable(self):
        if not self.file and not eng().decide(self.only()):
            raise error(ValueError, 'Only EventIOObjects that contain just subobjects are iterable')

    def __symiter__(self):
        self.readable()
        p = self.pos
        return t.sub(self.n, p), lambda i: self.child(t.add(p, i))

    def truncated(self):
        return eng().decide(t.bapp(self.name + '.truncated', self.args or (t.ZERO,)))

    def __symend__(self):
        self.pos = self.n
        if self.truncated():
            raise error(EOFError, 'File seems to be truncated')

    def __iter__(self):
        return self

    def __next__(self):
        self.readable()
        if not eng().decide(t.lt(self.pos, self.n)):
            if self.truncated():
                raise error(EOFError, 'File seems to be truncated')
            raise StopIteration
        o = self.child(self.pos)
        self.pos = t.addc(self.pos, 1)
        return o

    def __astok__(self):
        return Tok(self.name, *self.args)

    def _loopidx(self):
        return self.args[0] if len(self.args) == 1 else None

    def _loopmake(self, x):
        return Node(self.W, self.name, (x,))

    def _vsubst(self, mp):
        return Node(self.W, self.name, tuple(t.subst(x, mp) for x in self.args), self.file)


class Found:
    """what a function delivers according to its contract"""
    def __init__(self, name, args, lazy):
        self.name, self.args, self.lazy = name, tuple(args), lazy
        self.n = t.app(name + '.n', self.args, 0, 1 << 40)

    def __symiter__(self):
        return self.n, lambda i: Tok(self.name + '.item', *(self.args + (i,)))

    def __symend__(self):
        if self.lazy and eng().decide(t.bapp(self.name + '.truncated', self.args or (t.ZERO,))):
            raise error(EOFError, 'File seems to be truncated')

    def __symlen__(self):
        return mkint(self.n)

    def __iter__(self):
        raise Unsupported('native iteration over the result of a contract')


GENERATORS = ('yield_toplevel_of_type', 'yield_all_subobjects', 'yield_all_objects_depth_first', 'yield_subobjects', 'yield_n_subobjects')


def contract(W, name, o, *extra):
    """the result of a call; extra: numbers it depends on"""
    if not isinstance(o, Node):
        raise TypeError('not an object')
    return Found('%s(%s)' % (name, o.name), (o.args or (t.ZERO,)) + tuple(toT(x) for x in extra), name in GENERATORS)


def same(W, got, want, what):
    """precondition of the contract: the recursive call searches for the same thing"""
    if got is not want:
        from . import compare
        compare.mismatch(what, 'searches for something else')


def stubs(W, real=()):
    """the functions called are replaced by their contracts"""
    m = W['m']

    def by_type(name):
        def f(f, eventio_type):
            same(W, eventio_type, W['kind'], name)
            return contract(W, name, f)
        return f

    def along(name):
        def f(f, structure, level=0):
            same(W, structure, W['structure'], name)
            e = eng()
            e.oblige(t.band(t.le(t.ZERO, toT(level)), t.lt(toT(level), W['structure'].n)), '%s: level within the structure' % name)
            return contract(W, name, f, level)
        return f

    def depth(f, level=0):
        return contract(W, 'yield_all_objects_depth_first', f, level)
    new = {n: by_type(n) for n in ('yield_toplevel_of_type', 'yield_subobjects')}
    new.update({n: along(n) for n in ('find_all_subobjects', 'yield_all_subobjects')}, yield_all_objects_depth_first=depth)
    for k, f in new.items():
        if not hasattr(m, k):
            raise Unsupported('no function %s' % k)
        if k not in real:
            setattr(m, k, f)


def setup(file, real=()):
    def f(e):
        ld = block.make_loader(True, False)
        W = dict(ld=ld)
        b = ld.load('eventio.base')
        W.update(EventIOFile=b.EventIOFile, EventIOObject=b.EventIOObject)
        ld.mods['eventio'].EventIOFile = b.EventIOFile
        W['m'] = m = ld.load('eventio.search_utils')
        W['real'] = dict(m.__dict__)
        W['kind'] = Kind('wanted')
        W['structure'] = Structure('structure')
        W['f'] = lambda: Node(W, 'f', (), file)
        W['level'] = lv = mkint(t.var('level', 0, 1 << 30))
        e.assume(t.lt(toT(lv), W['structure'].n))
        stubs(W, real)
        return W
    return f


def of(file):
    return ' (of a file)' if file else ' (of an object)'


def guarded(f):
    """a truncated file ends the search"""
    try:
        f()
    except SpecRaise as x:
        if x.kinds != ('EOFError',):
            raise


def each(f, body):
    f.readable()
    loops.for_(f, body)


def u_toplevel(file=True, collect=False):
    def spec(W):
        out = SList()
        guarded(lambda: each(W['f'](), lambda o: out.append(o) if o.__isa__(W['kind']) else None))
        return out
    name = 'collect_toplevel_of_type' if collect else 'yield_toplevel_of_type'
    return Unit(name + of(file), setup(file, ('yield_toplevel_of_type',)), spec, lambda W: W['real'][name](W['f'](), W['kind']), kernel=True)


def u_along(name, file=True, level=True):
    """find_all_subobjects, yield_all_subobjects"""
    def spec(W):
        out = SList()
        S, lv = W['structure'], W['level'] if level else 0

        def body(o):
            if o.__isa__(Kind('structure', t.addc(S.n, -1))):
                out.append(o)
            elif o.__isa__(Kind('structure', toT(lv))):
                out.extend(contract(W, name, o, lv + 1))
        if name.startswith('find'):
            guarded(lambda: each(W['f'](), body))
        else:
            each(W['f'](), body)
        return out

    def code(W):
        f = W['real'][name]
        return f(W['f'](), W['structure'], W['level']) if level else f(W['f'](), W['structure'])
    return Unit(name + of(file) + (' from any level' if level else ''), setup(file), spec, code, kernel=True)


def u_depth(file=True, level=True):
    name = 'yield_all_objects_depth_first'

    def spec(W):
        out = SList()
        lv = W['level'] if level else 0

        def body(o):
            out.append((o, lv))
            out.extend(contract(W, name, o, lv + 1))
        f = W['f']()
        if file or eng().decide(f.only()):
            each(f, body)
        return out

    def code(W):
        f = W['real'][name]
        return f(W['f'](), W['level']) if level else f(W['f']())
    return Unit(name + of(file), setup(file), spec, code, kernel=True)


def u_subobjects(file=True):
    name = 'yield_subobjects'

    def spec(W):
        out = SList()
        f = W['f']()
        if f.__isa__(W['kind']):
            out.append(f)
        elif file or eng().decide(f.only()):
            each(f, lambda o: out.extend(contract(W, name, o)))
        return out
    return Unit(name + of(file), setup(file), spec, lambda W: W['real'][name](W['f'](), W['kind']), kernel=True)


def u_first_n(file=True, given=True):
    """the first n objects yield_subobjects delivers"""
    def mk(e):
        W = setup(file)(e)
        W['n'] = mkint(t.var('n', None, None)) if given else 3
        return W

    def spec(W):
        out = SList()
        F = contract(W, 'yield_subobjects', W['f']())
        n = toT(W['n'])
        if not eng().decide(t.le(F.n, n)):
            k = n if eng().decide(t.lt(t.ZERO, n)) else t.ZERO
        else:
            k = F.n
        loops.for_(loops.SymRange(t.ZERO, k, 1), lambda i: out.append(Tok(F.name + '.item', *(F.args + (toT(i),)))))
        if eng().decide(t.lt(t.ZERO, n)) and eng().decide(t.lt(F.n, n)):
            F.__symend__()
        return out

    def code(W):
        f = W['real']['yield_n_subobjects']
        return f(W['f'](), W['kind'], W['n']) if given else f(W['f'](), W['kind'])
    return Unit('yield_n_subobjects' + of(file) + ('' if given else ', no number given'), mk, spec, code, kernel=True)


def u_find(file=True):
    """the first object of the kind, wherever it is"""
    def mk(e):
        W = setup(file)(e)
        e.while_induction = True
        return W

    def spec(W):
        f = W['f']()
        f.readable()

        def body(i):
            p = toT(i)
            if not eng().decide(t.lt(p, f.n)):
                raise SpecRaise(*(('EOFError',) if f.truncated() else ('StopIteration', 'ValueError', 'RuntimeError')))
            o = f.child(p)
            if o.__isa__(W['kind']):
                return loops.Ret((o, mkint(t.addc(p, 1))))
        r = loops.for_(loops.SymRange(t.ZERO, loops.forever(), 1), body)
        if r is None:
            raise SpecUndefined()
        return r.value

    def code(W):
        f = W['f']()
        o = W['real']['find_type'](f, W['kind'])
        return (o, mkint(f.pos))
    return Unit('find_type' + of(file), mk, spec, code, kernel=True)


# ---------------------------------------------------------------- C23: kinds of files
class Path:
    """an unknown file name"""
    def __init__(self, name):
        self.name = name

    def endswith(self, *a):
        if len(a) != 1 or not isinstance(a[0], str):
            raise Unsupported('end of a file name')
        return mkbool(t.bapp('%s ends with %s' % (self.name, a[0]), (t.ZERO,)))

    def startswith(self, *a):
        raise Unsupported('start of a file name')

    def __format__(self, s):
        return '<path>'


class Feed(File):
    """a file, or the output of a decompressor: broken data may end it with an error"""
    def __init__(self, buf, L, broken=None, path=None):
        super().__init__(buf, L, t.ZERO)
        self.broken, self.path = broken, path

    def read(self, size=-1):
        e = eng()
        n = toT(size)
        if self.broken is not None and n is not None:
            if not (e.decide(t.le(t.ZERO, n)) and e.decide(t.le(t.add(toT(self.pos), n), self.L))):
                if e.decide(self.broken):
                    raise error(OSError, 'not a gzip file')
        return super().read(size)


class Disk:
    """one input file with unknown content P; G, Z: what gzip and zstd make of it"""
    def __init__(self, W):
        self.W = W
        for k in 'PGZ':
            L = t.var(k + '.len', 0, MAXLEN)
            setattr(self, k, (V.Buf(k, L), L))

    def new(self, k, path=None):
        buf, L = getattr(self, k)
        return Feed(buf, L, None if k == 'P' else t.bapp(k + ' broken', (t.ZERO,)), path)

    def open(self, path, mode='r', *a, **k):
        if not isinstance(path, Path):
            raise Unsupported('open of %r' % (path,))
        if path is self.W['path'] and mode in ('rb', 'br') and not a and set(k) <= {'buffering'}:
            return self.new('P', path)
        if path is self.W.get('out') and mode in ('wb', 'bw'):
            return self.W['written'](False)
        raise Unsupported('open(%r)' % mode)

    def gzip_open(self, path, mode='rb', *a, **k):
        if path is self.W.get('out') and mode in ('wb', 'w', 'bw') and not a and set(k) <= {'compresslevel'}:
            return self.W['written'](True)
        if path is not self.W['path'] or mode not in ('rb', 'r', 'br') or a or k:
            raise Unsupported('gzip.open')
        return self.new('G', path)

    def zstd_stream(self, fh, *a, **k):
        if not isinstance(fh, Feed) or fh.broken is not None or toT(fh.pos) is not t.ZERO:
            raise Unsupported('decompression of something else')
        if a or set(k) - {'read_size', 'closefd'}:
            raise Unsupported('stream_reader')
        return self.new('Z')

    def popen(self, args, **k):
        e = eng()
        if list(args) not in [x + [self.W['path']] for x in (['gzip', '-cd'], ['gzip', '-dc'], ['gzip', '-c', '-d'], ['gzip', '-d', '-c'],
                                                          ['zcat'], ['gunzip', '-c'])] or k.get('stdout') is not PIPE:
            raise Unsupported('another process')
        if e.decide(t.bapp('no gzip', (t.ZERO,))):
            raise FileNotFoundError('gzip')
        buf, L = self.G
        p = Process()
        p.stdout = Pipe(buf, L, t.ZERO)
        p.stderr = Message()
        return p


PIPE = object()


class Message:
    def read(self, *a):
        return self

    def decode(self, *a):
        return 'message'

    def close(self):
        pass


class Process:
    """the running decompressor"""
    returncode = None

    def __init__(self):
        eng().instances.append(self)

    def poll(self):
        e = eng()
        if self.returncode is None and not e.decide(t.bapp('gzip is running', (t.ZERO,))):
            self.returncode = 1 if e.decide(t.bapp('gzip failed', (t.ZERO,))) else 0
        return self.returncode

    def terminate(self):
        pass
    kill = terminate

    def wait(self, timeout=None):
        return 0


def fs_loader(W):
    ld = W['ld'] = block.make_loader(True, False)
    d = W['disk'] = Disk(W)
    W.setdefault('path', Path('path'))
    ld.builtins['open'] = d.open
    ld.lib['io'].open = d.open
    ld.lib['gzip'] = mkmodule('gzip', open=d.gzip_open, GzipFile=d.gzip_open)

    class ZstdDecompressor:
        def stream_reader(self, fh, *a, **k):
            return d.zstd_stream(fh, *a, **k)
    ld.lib['zstandard'] = mkmodule('zstandard', ZstdDecompressor=ZstdDecompressor)
    ld.lib['subprocess'] = mkmodule('subprocess', Popen=d.popen, PIPE=PIPE)
    return ld


def fs_setup(e):
    for k in 'PGZ':
        e.assume(t.le(t.ZERO, t.var(k + '.len', 0, MAXLEN)))
    W = {}
    ld = fs_loader(W)
    W['ft'] = ld.load('eventio.file_types')
    return W


def fs_inputs(e):
    return {k + '.len': t.var(k + '.len', 0, MAXLEN) for k in 'PGZ'}


def begins(W, k, marker):
    """the content starts with the marker"""
    buf, L = getattr(W['disk'], k)
    if not eng().decide(t.le(t.const(len(marker)), L)):
        return False
    return eng().decide(t.band(*[t.eq(buf.u8(t.const(i)), t.const(x)) for i, x in enumerate(marker)]))


GZ, ZST = b'\x1f\x8b', b'\x28\xb5\x2f\xfd'
LITTLE, BIG_ = bytes.fromhex('378a1fd4'), bytes.fromhex('d41f8a37')


def contents(W):
    return 'G' if begins(W, 'P', GZ) else 'Z' if begins(W, 'P', ZST) else 'P'


def is_data(W, k):
    return begins(W, k, LITTLE) or begins(W, k, BIG_)


def u_marker(fn):
    def spec(W):
        return begins(W, 'P', GZ if fn == 'is_gzip' else ZST)
    return Unit(fn, fs_setup, spec, lambda W: bool(getattr(W['ft'], fn)(W['path'])), kernel=True, buf=tuple('PGZ'), inputs=fs_inputs)


def u_is_eventio():
    def spec(W):
        return is_data(W, contents(W))

    def code(W):
        try:
            return bool(W['ft'].is_eventio(W['path']))
        except OSError as x:
            if 'not a gzip file' in str(x):
                return False            # what cannot be decompressed
            raise
    return Unit('is_eventio', fs_setup, spec, code, kernel=True, buf=tuple('PGZ'), inputs=fs_inputs)


def u_open(zcat):
    """the constructor refuses what is not eventio; otherwise the (decompressed) content is read from its start"""
    def mk(e):
        W = fs_setup(e)
        W['b'] = W['ld'].load('eventio.base')
        W['n'] = t.var('n', 0, MAXLEN)
        e.assume(t.lt(W['n'], t.var('n.max', 0, MAXLEN)))
        return W

    def spec(W):
        e = eng()
        k = contents(W)
        if not is_data(W, k):
            raise SpecRaise('Exception')
        buf, L = getattr(W['disk'], k)
        n = W['n']
        if not e.decide(t.le(n, L)):
            raise SpecUndefined()
        return SBytes([('b', buf, t.ZERO, n)])

    def code(W):
        f = W['b'].EventIOFile(W['path'], zcat=zcat)
        return f.read(mkint(W['n']))
    return Unit('EventIOFile(zcat=%s)' % zcat, mk, spec, code, kernel=True, buf=tuple('PGZ'), inputs=fs_inputs)


# ---------------------------------------------------------------- C22: cutting
class Top:
    """an object of the file: where its header starts follows from the sizes of the objects before"""
    def __init__(self, W, i):
        self.W, self.i = W, i

    @property
    def header(self):
        i = self.i
        return mkheader(id=mkint(t.app('object.id', (i,), -(1 << 31), (1 << 31) - 1)), type=mkint(t.app('object.type', (i,), 0, 65535)),
                        header_size=mkint(hsize(i)), content_size=mkint(csize(i)), content_address=mkint(t.add(start(self.W, i), hsize(i))))

    @property
    def size(self):
        return mkint(csize(self.i))

    @property
    def address(self):
        return self.header.content_address

    def seek(self, off, whence=0):
        W, e = self.W, eng()
        o, w = toT(off), toT(whence)
        if w.m:
            raise Unsupported('whence')
        o = o if w.c == 0 else t.add(csize(self.i), o) if w.c == 2 else None
        if o is None or not e.decide(t.le(t.ZERO, o)):
            raise Unsupported('seek in an object')
        W['at'].p = t.add(t.add(start(W, self.i), hsize(self.i)), o)
        return mkint(o)

    def read(self, size=-1):
        """contract of EventIOObject.read (C04, C07)"""
        W, e = self.W, eng()
        p, end = W['at'].p, start(W, t.addc(self.i, 1))
        n = toT(size)
        if not e.decide(t.le(t.ZERO, n)) or not e.decide(t.le(t.add(p, n), end)):
            n = t.sub(end, p) if e.decide(t.le(p, end)) else t.ZERO
        buf, L = W['disk'].P
        if not e.decide(t.le(t.add(p, n), L)):
            raise EOFError('File seems to be truncated')
        W['at'].p = t.add(p, n)
        return SBytes([('b', buf, p, n)])

    def _loopidx(self):
        return self.i

    def _loopmake(self, x):
        return Top(self.W, x)

    def _vsubst(self, mp):
        return Top(self.W, t.subst(self.i, mp))

    def __astok__(self):
        return Tok('object', self.i)
    name = 'object'


def hsize(i):
    return t.app('object.header_size', (i,), 16, 20)


def csize(i):
    return t.app('object.content_size', (i,), 0, 1 << 42)


def start(W, i):
    return W['start'].at(i)


class At(Heap):
    """position in the file"""
    def __init__(self):
        self._register()
        self.p = t.ZERO

    def _slots(self):
        return {'pos': mkint(self.p)}

    def _setslot(self, k, v):
        self.p = toT(v) if toT(v) is not None else v


class Input(File):
    """what is used of EventIOFile: its objects, and its bytes from the start"""
    def __init__(self, W):
        buf, L = W['disk'].P
        super().__init__(buf, L, t.ZERO)
        self.W = W

    def __symiter__(self):
        W = self.W
        # while the objects are read the position is that of an object
        self.pos = mkint(t.var('anywhere', 0, MAXLEN))
        return W['n'], lambda i: Top(W, i)

    def __symend__(self):
        buf, L = self.W['disk'].P
        if eng().decide(t.lt(start(self.W, self.W['n']), L)):
            raise error(EOFError, 'File seems to be truncated')


class Output:
    def __init__(self, W, gz):
        self.W = W
        W['result'] = self
        self.gz = gz
        self.data = V.SByteArray(b'')

    def write(self, b):
        self.data.extend(b)
        return mkint(V.as_sbytes(b).tlen())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        pass


class Args:
    pass


class Parser:
    """argparse: the arguments are given"""
    def __init__(self, *a, **k):
        pass

    def add_argument(self, *a, **k):
        return Args()

    def parse_args(self, *a, **k):
        return Parser.args


def cut_setup(e):
    W = dict(path=Path('input'), out=Path('output'), arg=Path('size'))
    W['written'] = lambda gz: Output(W, gz)
    ld = fs_loader(W)
    e.assume(t.le(t.ZERO, W['disk'].P[1]))
    j = t.var('start.j', 0, None)
    f = W['start'] = core.RecFn('object.start', [], j.m[0][0], t.ZERO, t.const(1 << 60))
    f.lo, f.hi = 0, None
    f.step = t.add(f.at(j), t.add(hsize(j), csize(j)))
    f.mono = True
    e.recfns[f.name] = f
    W['n'] = t.var('n', 0, 1 << 40)
    W['M'] = mkint(t.var('M', 0, None))
    e.fnaxioms['object.header_size'] = lambda e, a, atoms, level: headers(W, a.args[1])

    def hint(ind, t0, t1):
        if toT(t0) is t.ZERO:
            yield loops.Binding(lambda x: f.at(x), 'start of the object')
    e.hints.append(hint)
    ld.lib['argparse'] = mkmodule('argparse', ArgumentParser=Parser)
    a = Parser.args = Args()
    a.inputfile, a.outputfile, a.max_size = W['path'], W['out'], W['arg']
    b = ld.load('eventio.base')

    def opened(path, zcat=True):
        if path is not W['path']:
            raise Unsupported('another input file')
        return Input(W)
    b.EventIOFile = opened
    m = W['m'] = ld.load('eventio.scripts.cut_eventio_file')

    def parse_size(size):
        if size is not W['arg']:
            raise Unsupported('another size')
        return W['M']
    if not hasattr(m, 'parse_size'):
        raise Unsupported('no function parse_size')
    m.parse_size = parse_size
    return W


def headers(W, i):
    """headers of the objects delivered are complete"""
    return [t.implies(t.band(t.le(t.ZERO, i), t.lt(i, W['n'])), t.le(t.add(start(W, i), hsize(i)), W['disk'].P[1]))]


def u_cut():
    """the longest prefix of complete objects that fits"""
    def spec(W):
        W['at'] = At()
        L = W['disk'].P[1]

        def body(i):
            p = toT(i)
            end = start(W, t.addc(p, 1))
            if not eng().decide(t.le(end, toT(W['M']))) or not eng().decide(t.le(end, L)):
                return loops.Ret(p)
        r = loops.for_(loops.SymRange(t.ZERO, W['n'], 1), body)
        k = r.value if r is not None else W['n']
        d = SDict()
        d['bytes'] = SBytes([('b', W['disk'].P[0], t.ZERO, start(W, k))])
        d['gzip'] = eng().decide(t.bapp('output ends with .gz', (t.ZERO,)))
        return d

    def code(W):
        W['at'] = At()
        W['m'].main()
        o = W['result']
        d = SDict()
        d['bytes'] = o.data
        d['gzip'] = o.gz
        return d
    return Unit('cut main', cut_setup, spec, code, kernel=True, buf=tuple('PGZ'), inputs=fs_inputs)


class Digits:
    def __init__(self, v):
        self.v = v

    def __symint__(self):
        return self.v


class Match:
    def __init__(self, *g):
        self.g = g

    def groups(self, default=None):
        return tuple(default if x is None else x for x in self.g)

    def group(self, *k):
        r = tuple((self,) if i == 0 else self.g[i - 1] for i in k)
        return r if len(r) != 1 else r[0]

    def __getitem__(self, k):
        return self.group(k)


SIZE = r'(\d+)([kMG])?'


def u_size(unit):
    """sizes: digits, followed by k, M or G"""
    def mk(e):
        import re
        W = dict(size=Path('text'), v=mkint(t.var('digits', 0, None)))
        ld = fs_loader(W)
        ld.lib['argparse'] = mkmodule('argparse', ArgumentParser=Parser)

        def fullmatch(pattern, s, flags=0):
            if s is not W['size'] or flags or str(re._parser.parse(pattern)) != str(re._parser.parse(SIZE)):
                raise Unsupported('pattern %s' % pattern)
            return None if unit == 'other' else Match(Digits(W['v']), unit)
        ld.lib['re'] = mkmodule('re', fullmatch=fullmatch)
        b = ld.load('eventio.base')
        W['m'] = ld.load('eventio.scripts.cut_eventio_file')
        return W

    def spec(W):
        if unit == 'other':
            raise SpecRaise('Exception')
        return W['v'] * {None: 1, 'k': 1 << 10, 'M': 1 << 20, 'G': 1 << 30}[unit]
    return Unit('parse_size, suffix %s' % unit, mk, spec, lambda W: W['m'].parse_size(W['size']), kernel=True)


UNITS = {'C21': [(u, dict(kw, file=f)) for f in (True, False) for u, kw in (
    ('u_toplevel', {}), ('u_toplevel', dict(collect=True)), ('u_along', dict(name='find_all_subobjects')),
    ('u_along', dict(name='find_all_subobjects', level=False)), ('u_along', dict(name='yield_all_subobjects')),
    ('u_along', dict(name='yield_all_subobjects', level=False)), ('u_depth', {}), ('u_depth', dict(level=False)), ('u_subobjects', {}),
    ('u_first_n', {}), ('u_first_n', dict(given=False)), ('u_find', {}))],
    'C22': [('u_cut', {})] + [('u_size', dict(unit=u)) for u in (None, 'k', 'M', 'G', 'other')],
    'C23': [('u_marker', dict(fn='is_gzip')), ('u_marker', dict(fn='is_zstd')), ('u_is_eventio', {}), ('u_open', dict(zcat=True)),
            ('u_open', dict(zcat=False))]}
