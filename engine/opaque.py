"""Blocks nothing is known about: sequences of unknown length of objects of unknown class and content, as the contracts
of the reader classes allow.  What the code finds out about a block (its class, its numbers, what parse returns) is a
function of the sequence and the position."""
from . import terms as t
from . import core, loops
from .core import Unsupported, eng
from .values import Heap, mkint, toT
from .shims import Tok
from .objunits import mkheader

MODULES = ('eventio.base', 'eventio.simtel.objects', 'eventio.iact.objects', 'eventio.histograms')


class Classes:
    """the reader classes of /repo, numbered"""
    def __init__(self, ld):
        self.ld = ld
        base = ld.load('eventio.base').EventIOObject
        for m in MODULES:
            ld.load(m)
        seen, todo = [], [base]
        while todo:
            c = todo.pop(0)
            if c not in seen:
                seen.append(c)
                todo += sorted(c.__subclasses__(), key=lambda x: (x.__module__, x.__name__))
        self.base = base
        self.all = seen
        self.num = {c: k for k, c in enumerate(seen)}

    def named(self, name):
        for c in self.all:
            if c.__name__ == name:
                return c
        raise Unsupported('no class %s' % name)

    def codes(self, k):
        return [self.num[c] for c in self.all if issubclass(c, k)]


class Blk:
    """one block; args: its position (terms)"""
    def __init__(self, W, name, idx=None, cls=None, subs=None, args=None):
        d = self.__dict__
        d.update(W=W, name=name, args=args if args is not None else () if idx is None else (idx,), cls=cls, subs=subs)

    def num(self, what, lo=None, hi=None):
        if not self.args:
            return mkint(t.var('%s.%s' % (self.name, what), lo, hi))
        return mkint(t.app('%s.%s' % (self.name, what), self.args, lo, hi))

    def flag(self, what):
        return t.bapp('%s.%s' % (self.name, what), self.args or (t.ZERO,))

    def tok(self, what):
        return Tok('%s.%s' % (self.name, what), *self.args)

    # ------------------------------------------------ class
    def class_code(self):
        return toT(self.num('class', 0, len(self.W['classes'].all) - 1))

    def __isa__(self, k):
        C = self.W['classes']
        if k is C.base or k is object:
            return True
        if self.cls is not None:
            return isinstance(k, type) and issubclass(self.cls, k)
        if k not in C.num:
            return False
        return eng().decide(t.bor(*[t.eq(self.class_code(), t.const(n)) for n in C.codes(k)]))

    # ------------------------------------------------ what readers offer
    @property
    def header(self):
        return mkheader(id=self.num('id', -(1 << 31), (1 << 31) - 1), version=self.num('version', 0, 0xfff), type=self.num('type', 0, 0xffff))

    def parse(self, *a, **k):
        h = self.W.get('parse')
        if h is not None:
            r = h(self, a, k)
            if r is not NotImplemented:
                return r
        if a or k:
            return Tok('%s.parse' % self.name, *(self.args + tuple(a) + tuple(k[x] for x in sorted(k))))
        return self.tok('parse')

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        if k in NUMBERS:
            return self.num(k, *NUMBERS[k])
        raise Unsupported('attribute %s of a block' % k)

    def __symiter__(self):
        if self.subs is None:
            raise Unsupported('iteration over a block without known content')
        return self.subs.__symiter__()

    @property
    def __peel__(self):
        return getattr(self.subs, '__peel__', 0)

    def __iter__(self):
        return iter(self.subs)

    def __next__(self):
        return next(self.subs)

    def __format__(self, s):
        return '<block>'

    def __str__(self):
        return '<block>'
    __repr__ = __str__

    def _vsubst(self, mp):
        return Blk(self.W, self.name, None, self.cls, self.subs, tuple(t.subst(x, mp) for x in self.args))


class FileBlk(Blk):
    """a block of a file: the class follows from the position"""
    def _loopidx(self):
        return self.args[0]

    def _loopmake(self, x):
        return self.W['layout'].block(x)

    def _vsubst(self, mp):
        return FileBlk(self.W, self.name, None, self.cls, None, tuple(t.subst(x, mp) for x in self.args))

    def sub(self):
        return Blocks(self.W, self.name + '.sub', args=self.args)

    def __symiter__(self):
        return self.sub().__symiter__()

    def __iter__(self):
        return self.sub()


class Layout:
    """the blocks of a file one after the other: [(how many, class name or None)]"""
    def __init__(self, W, regions):
        self.W = W
        self.regions = []
        p = t.ZERO
        for n, c in regions:
            p = t.add(p, toT(n))
            self.regions.append((p, W['classes'].named(c) if c else None))
        self.end = p

    def block(self, p):
        e = eng()
        for end, cls in self.regions:
            if e.decide(t.lt(p, end)):
                return FileBlk(self.W, 'file', None, cls, None, (p,))
        raise StopIteration


NUMBERS = {'telescope_id': (0, 65535), 'code': None, 'type': None, 'telescope': (-(1 << 31), (1 << 31) - 1), 'array_id': (-(1 << 31), (1 << 31) - 1),
           'n_photons': None, 'n_bunches': None, 'n_telescopes': None}
NUMBERS = {k: v or (None, None) for k, v in NUMBERS.items()}


class Blocks(Heap):
    """a sequence of blocks read one after the other"""
    def __init__(self, W, name, peel=0, first=None, args=()):
        self._register()
        self.W, self.name, self.__peel__ = W, name, peel
        self.first = first                  # class of the first block, if known
        self.args = args
        self.n = t.app(name + '.n', args, 0, 1 << 40) if args else t.var(name + '.n', 0, 1 << 40)
        self.pos = t.ZERO

    def _slots(self):
        return {'pos': mkint(self.pos)}

    def _setslot(self, k, v):
        self.pos = toT(v) if toT(v) is not None else v

    def block(self, i):
        return Blk(self.W, self.name, None, self.first if not i.m and i.c == 0 else None, None, self.args + (i,))

    def __symiter__(self):
        p = self.pos
        if isinstance(p, t.T):
            return t.sub(self.n, p), lambda i: self.block(t.add(p, i))
        raise Unsupported('position in a sequence of blocks')

    def __iter__(self):
        return self

    def __next__(self):
        e = eng()
        if not e.decide(t.lt(self.pos, self.n)):
            raise StopIteration
        b = self.block(self.pos)
        self.pos = t.addc(self.pos, 1)
        return b


class Numbers:
    """an unknown set of numbers"""
    def __init__(self, name):
        self.name = name

    def __symcontains__(self, x):
        return eng().decide(t.bapp(self.name, (toT(x),)))

    def __bool__(self):
        return True


# ---------------------------------------------------------------- keys of dictionaries filled by such loops
def log_key(log):
    """which keys a log of updates leaves, up to the name of the loop variables"""
    def term(x):
        v = toT(x)
        if v is not None:
            return ('t', v.id)
        if isinstance(x, str):
            return x
        raise Unsupported('keys of a dictionary')

    def walk(log, depth):
        out = []
        for ev in log:
            if ev[0] == 'set':
                out.append(('set', term(ev[1])))
            elif ev[0] == 'loop':
                ln = ev[1]
                mp = {ln.j: t.var('key!%d' % depth, 0, None)}
                cases = {}
                from . import values as V
                for conds, evs in ln.paths:
                    k = tuple(walk([V.ev_subst(x, mp) for x in evs], depth + 1))
                    if k:
                        c = t.subst(t.band(*conds), mp)
                        cases[k] = t.bor(cases[k], c) if k in cases else c
                if cases:
                    out.append(('loop', ln.N.id, tuple(sorted(((k, c.id) for k, c in cases.items()), key=repr))))
            else:
                raise Unsupported('keys of a dictionary')
        return out
    return tuple(walk(log, 0))


class Keys:
    """the keys of a dictionary, as a set"""
    def __init__(self, d):
        self.key = log_key(d.entries_log())

    def minus(self, o):
        return Missing(self.key, o.key) if isinstance(o, Keys) else NotImplemented
    __sub__ = difference = minus

    def __le__(self, o):
        return not (self - o)
    issubset = __le__

    def __symiter__(self):
        raise Unsupported('iteration over the keys of a dictionary filled by a loop')

    def __format__(self, s):
        return '<keys>'


class Missing:
    def __init__(self, a, b):
        self.key = ('missing', a, b)

    def __bool__(self):
        e = eng()
        if e.loop_vars or e.loop_stack:
            raise Unsupported('keys of a dictionary in a loop')
        if self.key not in e.uidmap:
            if e.side != 'spec':
                e.approx = True
            e.uid += 1
            e.uidmap[self.key] = e.uid
        return e.decide(t.bapp('missing!%d' % e.uidmap[self.key], (t.ZERO,)))

    def __symlen__(self):
        raise Unsupported('number of keys')

    def __format__(self, s):
        return '<keys>'
    __str__ = __repr__ = lambda self: '<keys>'


class Entries:
    """a dictionary with an unknown number of entries"""
    def __init__(self, name):
        self.name = name
        self.n = t.var(name + '.n', 0, 1 << 40)

    def key(self, i):
        return mkint(t.app(self.name + '.key', (i,), 0, 65535))

    def __symiter__(self):
        return self.n, self.key

    def keys(self):
        return self

    def items(self):
        return Pairs(self)

    def __symlen__(self):
        return mkint(self.n)

    def __bool__(self):
        return eng().decide(t.lt(t.ZERO, self.n))

    def __getitem__(self, k):
        return Tok(self.name + '.item', toT(k))


class Pairs:
    def __init__(self, d):
        self.d = d

    def __symiter__(self):
        return self.d.n, lambda i: (self.d.key(i), self.d[self.d.key(i)])


class Inner:
    """one of the dictionaries collected per telescope"""
    def __init__(self, name, k):
        self.name, self.k = name, k

    def __copy__(self):
        return Tok(self.name + '.copy', toT(self.k))
    copy = __copy__


class PerTelescope:
    def __init__(self, name):
        self.name = name

    def __getitem__(self, k):
        return Inner(self.name, k)
