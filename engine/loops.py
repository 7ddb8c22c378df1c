"""Loops: concrete ones are run, symbolic ones are summarised by induction over the iteration index."""
import itertools
import types
from . import terms as t
from . import core
from .core import Unsupported, PathAbort, SpecUndefined, SpecRaise, RecFn, LoopRec, eng
from .values import (SymInt, SymBool, SymFloat, Poison, toT, mkint, SList, SDict, SByteArray, SBytes, SStr,
                     LoopNode, Heap, freeze)

LIMIT = 600
DEBUG = False


class _Sentinel:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


BREAK = _Sentinel('BREAK')
SKIP = _Sentinel('SKIP')


class Ret:
    __slots__ = ('value',)

    def __init__(self, v):
        self.value = v


class Flat:
    __slots__ = ('xs',)

    def __init__(self, xs):
        self.xs = xs


# ---------------------------------------------------------------- iterables
class SymRange:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def count(self):
        """T; may be negative"""
        d = t.sub(self.stop, self.start)
        if self.step == 1:
            return d
        if self.step > 0:
            return t.div(t.addc(d, self.step - 1), self.step)
        return t.div(t.addc(t.scale(d, -1), -self.step - 1), -self.step)

    def __symiter__(self):
        s, k = self.start, self.step
        return self.count(), (lambda i: mkint(t.add(s, t.scale(i, k))))

    def __symlen__(self):
        n = self.count()
        return mkint(n) if eng().decide(t.le(t.ZERO, n)) else 0

    def __iter__(self):
        n = self.count()
        if n.m:
            raise Unsupported('native iteration over symbolic range')
        return iter([mkint(t.addc(self.start, self.step * i)) for i in range(max(n.c, 0))])

    def __symcontains__(self, x):
        v = toT(x)
        if v is None:
            return False
        e = eng()
        if self.step != 1:
            raise Unsupported('membership in stepped range')
        return e.decide(t.le(self.start, v)) and e.decide(t.lt(v, self.stop))


class SymZip:
    def __init__(self, its, strict=False):
        self.its = its
        self.strict = strict
        if any(hasattr(x, '__symend__') for x in its):
            raise Unsupported('zip over a generator')

    def __symiter__(self):
        e = eng()
        parts = [iteration(i) for i in self.its]
        if all(p[0] == 'native' for p in parts):
            return None
        ns = [t.const(len(p[1])) if p[0] == 'native' else p[1] for p in parts]
        n = ns[0]
        for m in ns[1:]:
            if e.decide(t.eq(n, m)):
                continue
            if self.strict:
                raise ValueError('zip() arguments have different lengths')
            if not e.decide(t.le(n, m)):
                n = m

        def at(i):
            out = []
            for p in parts:
                if p[0] == 'native':
                    out.append(SList(p[1]).at(i))
                else:
                    out.append(p[2](i))
            return tuple(out)
        return n, at

    def __iter__(self):
        return iter(list(zip(*[native_list(i) for i in self.its])))


class SymEnumerate:
    def __init__(self, it, start=0):
        self.it, self.start = it, start
        self.__peel__ = getattr(it, '__peel__', 0)
        if hasattr(it, '__symend__'):
            self.__symend__ = it.__symend__

    def __symiter__(self):
        p = iteration(self.it)
        if p[0] == 'native':
            return None
        st = toT(self.start)
        return p[1], (lambda i: (mkint(t.add(st, i)), p[2](i)))

    def __iter__(self):
        return iter([(self.start + k, x) for k, x in enumerate(native_list(self.it))])


class SymReversed:
    def __init__(self, it):
        self.it = it

    def __symiter__(self):
        p = iteration(self.it)
        if p[0] == 'native':
            return None
        return p[1], (lambda i: p[2](t.sub(t.addc(p[1], -1), i)))

    def __iter__(self):
        return iter(list(reversed(native_list(self.it))))


def iteration(it):
    f = getattr(it, '__symiter__', None)
    if f is not None:
        r = f()
        if r is not None:
            n, at = r
            if not n.m and n.c <= LIMIT:
                return ('native', [at(t.const(i)) for i in range(max(n.c, 0))])
            return ('sym', n, at)
    if isinstance(it, Poison):
        it._die()
    return ('native', list(it))


def native_list(it):
    p = iteration(it)
    if p[0] != 'native':
        raise Unsupported('symbolic iteration where a concrete one is needed')
    return p[1]


# ---------------------------------------------------------------- state
_EMPTY = _Sentinel('EMPTY')


def cell_get(c):
    try:
        return c.cell_contents
    except ValueError:
        return _EMPTY


def cell_set(c, v):
    if v is _EMPTY:
        try:
            del c.cell_contents
        except ValueError:
            pass
    else:
        c.cell_contents = v


class State:
    """mutable state reachable by a loop body"""
    def __init__(self, cells):
        e = eng()
        self.cells = cells
        self.heap_mark = len(e.heap)
        self.inst_mark = len(e.instances)
        self.heap = list(e.heap)
        self.insts = list(e.instances)
        self.loglen = [len(o._log) for o in self.heap]
        self.reads = []
        self.lazy = {}             # (container, string key): inner dictionary some iteration may have created
        self.j = None
        self.vals = self.read()
        self.short = e.short

    def read(self):
        out = {}
        for i, c in enumerate(self.cells):
            out[('c', i)] = cell_get(c)
        for i, o in enumerate(self.heap):
            for k, v in o._slots().items():
                out[('h', i, k)] = v
        for i, o in enumerate(self.insts):
            for k, v in o.__dict__.items():
                out[('o', i, k)] = v
        return out

    def set(self, key, v):
        if key[0] == 'c':
            cell_set(self.cells[key[1]], v)
        elif key[0] == 'h':
            self.heap[key[1]]._setslot(key[2], v)
        else:
            if v is _EMPTY:
                self.insts[key[1]].__dict__.pop(key[2], None)
            else:
                self.insts[key[1]].__dict__[key[2]] = v

    def restore(self):
        e = eng()
        del e.heap[self.heap_mark:]
        del e.instances[self.inst_mark:]
        for o, n in zip(self.heap, self.loglen):
            if len(o._log) > n:
                o._trunc(n)
        cur = self.read()
        for k, v in cur.items():
            w = self.vals.get(k, _EMPTY)
            if v is not w:
                self.set(k, w)
        for k, w in self.vals.items():
            if k not in cur and w is not _EMPTY:
                self.set(k, w)
        e.short = self.short

    def events(self):
        """per container: events appended since the snapshot"""
        out = {}
        for i, (o, n) in enumerate(zip(self.heap, self.loglen)):
            if len(o._log) > n:
                out[i] = [tuple(freeze(x) for x in ev) for ev in o._log[n:]]
        return out


def index(v):
    """the number a loop variable stands for: itself, or the position of an object in its sequence"""
    f = getattr(type(v), '_loopidx', None)
    if f is not None:
        return f(v)
    return toT(v) if not isinstance(v, (bool, SymBool)) else None


def same(a, b):
    if a is b:
        return True
    if getattr(type(a), '_loopidx', None) is not None and type(a) is type(b):
        x, y = a._loopidx(), b._loopidx()
        return x is not None and y is not None and a.name == b.name and (x is y or eng().entails(t.eq(x, y)))
    ta = toT(a) if not isinstance(a, (bool, SymBool)) else None
    tb = toT(b) if not isinstance(b, (bool, SymBool)) else None
    if ta is not None and tb is not None:
        return ta is tb or eng().entails(t.eq(ta, tb))
    if isinstance(a, SymFloat) and isinstance(b, SymFloat):
        return a.f is b.f
    if isinstance(a, SymBool) and isinstance(b, SymBool):
        return a.b is b.b
    if type(a) is type(b):
        if isinstance(a, (int, float, str, bytes, bool, type(None))):
            return a == b
        if isinstance(a, tuple):
            return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
        if isinstance(a, SBytes):
            return a.segs == b.segs
        if isinstance(a, (types.FunctionType,)):
            return a.__code__ is b.__code__
    return False


# ---------------------------------------------------------------- the rule
def for_(it, body, names=None):
    r = for_1(it, body)
    if r is None and hasattr(it, '__symend__'):
        it.__symend__()             # what the iterator does at its end
    return r


def for_1(it, body):
    e = eng()
    p = iteration(it) if not hasattr(it, '__next__') or hasattr(it, '__symiter__') else None
    if p is None:
        n = 0
        for x in it:
            n += 1
            if n > LIMIT:
                raise Unsupported('loop limit')
            r = body(x)
            if r is BREAK or isinstance(r, Ret):
                return r
        return None
    if p[0] == 'native':
        if len(p[1]) > LIMIT:
            raise Unsupported('long concrete loop')
        for x in p[1]:
            r = body(x)
            if r is BREAK or isinstance(r, Ret):
                return r
        return None
    N, at = p[1], p[2]
    if not e.decide(t.le(t.ZERO, N)):
        return None
    for _ in range(getattr(it, '__peel__', 0)):
        if not e.decide(t.lt(t.ZERO, N)):
            return None
        r = body(at(t.ZERO))
        if r is BREAK or isinstance(r, Ret):
            return r
        N, at = t.addc(N, -1), (lambda i, at=at: at(t.addc(i, 1)))
    lo, hi = e.interval(N)
    if hi is not None and hi <= 4:
        for k in range(hi + 1):
            if k == hi or e.decide(t.eq(N, t.const(k))):
                for i in range(k):
                    r = body(at(t.const(i)))
                    if r is BREAK or isinstance(r, Ret):
                        return r
                return None
    return Induction(N, at, body).run()


def forever():
    """more than any number of iterations"""
    return t.var('forever', 1, None)


def while_(cond, body):
    e = eng()
    if e.while_induction:
        # exits are found at an unknown iteration; nothing is claimed about loops that never end
        def step(x):
            if not cond():
                return BREAK
            return body(None)
        r = Induction(forever(), lambda i: None, step, (cond, body)).run()
        if r is None:
            raise PathAbort()
        return None if r is BREAK else r
    n = 0
    while cond():
        n += 1
        if n > LIMIT:
            raise Unsupported('while loop limit')
        r = body(None)
        if r is BREAK or isinstance(r, Ret):
            return r
    return None


def sets_str(ev, key):
    if ev[0] == 'loop':
        return any(sets_str(x, key) for _, evs in ev[1].paths for x in evs)
    return isinstance(ev[1], SStr) or ev[1] == key if isinstance(ev[1], (str, SStr)) else False


class OrderedSet(dict):
    def add(self, k):
        self[k] = None


class Binding:
    __slots__ = ('fn', 'rec', 'label')

    def __init__(self, fn, label, rec=None):
        self.fn = fn
        self.label = label
        self.rec = rec


class Last:
    """every iteration sets the variable to the same function of its number; before the first one it has its old value"""
    rec = None
    label = 'last'

    def __init__(self, v0, v1, j):
        self.v0, self.v1, self.j = v0, v1, j

    def value(self, x):
        if not eng().decide(t.lt(t.ZERO, x)):
            return self.v0
        return self.after(t.addc(x, -1))

    def after(self, x):
        from .values import vsubst
        return vsubst(self.v1, {self.j: x})


class Induction:
    def __init__(self, N, at, body, funcs=None):
        self.e = eng()
        self.N, self.at, self.body = N, at, body
        cells = []
        seen = set()

        def closure(f, depth=0):
            for c in (f.__closure__ or ()):
                if id(c) in seen:
                    continue
                seen.add(id(c))
                cells.append(c)
        for f in funcs or (body,):
            closure(f) if isinstance(f, types.FunctionType) else None
        self.st = State(cells)
        e = self.e
        # the same loop reached along the same path keeps its names from one exploration to the next
        e.cnt += 1
        self.cnt0 = e.cnt
        self.key = (getattr(body, '__code__', None), e.side, tuple(e.loop_vars), N, e.cnt,
                    tuple(c for _, c, _ in e.ctx.trace) if e.ctx is not None else ())
        if self.key not in e.uidmap:
            e.uid += 1
            e.uidmap[self.key] = e.uid
        self.uid = e.uidmap[self.key]
        self.j = t.var('j!%d' % self.uid, 0, None)
        self.jT = self.j
        self.jA = self.j.m[0][0]
        self.bound = {}        # key -> Binding | None (poison)
        self.cands = {}
        self.tried = {}
        self.rejected = set()
        self.rec = None
        self.recs0 = None

    # ------------------------------------------------ facts
    def instantiate(self, jT):
        """facts known for every iteration of loops with the same number of iterations"""
        e = self.e
        for rec in e.recs:
            if not rec.complete or rec is self.rec:
                continue
            for mp in e.ctx_maps(rec):
                n = t.subst(rec.N, mp)
                if n is self.N or e.entails(t.eq(n, self.N)):
                    m2 = dict(mp)
                    m2[rec.j] = jT
                    for f in rec.facts:
                        e._assume(t.subst(f, m2))
                    self.matched.append((rec, mp))

    # ------------------------------------------------ one exploration of the body
    def enter(self, jT):
        self.st.restore()
        for k, b in self.bound.items():
            if b is None:
                self.st.set(k, Poison(self.keyname(k)))
            elif isinstance(b, Last):
                self.st.set(k, b.value(jT))
            else:
                self.st.set(k, self.make(k, b.fn(jT)))

    def make(self, k, x):
        v0 = self.st.vals.get(k)
        return v0._loopmake(x) if getattr(type(v0), '_loopidx', None) is not None else mkint(x)

    def keyname(self, k):
        if k[0] == 'c':
            try:
                return self.body.__code__.co_freevars[k[1]]
            except Exception:
                return str(k)
        return '%s' % (k[-1],)

    def round(self):
        e = self.e
        st = self.st
        mk = e.mark()
        if e.side == 'spec':
            recs0 = len(e.recs)
            if self.recs0 is None:
                self.recs0 = recs0
            del e.recs[self.recs0:]
        paths = []
        changed = OrderedSet()
        bad = OrderedSet()
        first = {}
        sv_mark, e.loop_mark = e.loop_mark, st.heap_mark
        sv_collect = e.collect
        lv = e.loop_vars
        e.loop_vars = lv + [self.jA]
        st.reads = []
        st.j = self.jT
        e.loop_stack = e.loop_stack + [st]
        try:
            e._assume(t.lt(self.jT, self.N))
            self.matched = []
            self.instantiate(self.jT)
            if e.side != 'spec':
                e.jstack = e.jstack + [(self.jT, self.N)]

            def fn():
                self.enter(self.jT)
                self.prec = len(e.recs)
                e.collect = [] if e.side == 'spec' else None
                try:
                    r = self.body(self.at(self.jT))
                except Unsupported:
                    raise
                except PathAbort:
                    # infeasible, or outside the domain of the specification
                    if e.side != 'spec':
                        raise
                    return ('undef',)
                except SpecUndefined:
                    return ('undef',)
                except SpecRaise as x:
                    return ('exit', x)
                except Exception as x:
                    if e.side == 'spec' and isinstance(x, IndexError):
                        return ('undef',)
                    if e.side == 'spec':
                        import traceback
                        tb = traceback.extract_tb(x.__traceback__)[-1]
                        raise Unsupported('exception in the specification: %r (%s:%d)' % (x, tb.filename, tb.lineno))
                    return ('exit', x)
                if r is BREAK or isinstance(r, Ret):
                    return ('exit', r)
                return ('ok',)

            def on_path(trace, out):
                if out[0] == 'undef':
                    if e.side == 'spec' and trace:
                        # inputs reaching this path are outside the domain: later facts may exclude it
                        paths.append((trace, out, {}, [t.bnot(t.band(*trace))], {}))
                    return
                if out[0] == 'exit':
                    paths.append((trace, out, {}, [], {}))
                    return
                fin = st.read()
                ch = {}
                for k, v in fin.items():
                    v0 = st.vals.get(k, _EMPTY)
                    if k in self.bound:
                        b = self.bound[k]
                        if b is None:
                            continue
                        if isinstance(b, Last):
                            if not same(v, b.after(self.jT)):
                                bad.add(k)
                            continue
                        tv = index(v)
                        if tv is None or (getattr(type(v), '_loopidx', None) or getattr(type(v0), '_loopidx', None)) \
                                and not (type(v) is type(v0) and v.name == v0.name):
                            bad.add(k)
                            ch[k] = v
                            continue
                        if b.label == 'havoc':
                            continue
                        ch[k] = tv
                        if b.rec is not None and b.rec.step is None:
                            continue
                        if not e.entails(t.eq(tv, b.fn(t.addc(self.jT, 1)))):
                            if DEBUG:
                                print('BAD', self.keyname(k), tv, '| step', b.rec and b.rec.step, '| path', trace)
                            bad.add(k)
                    elif not same(v, v0):
                        changed.add(k)
                        ch[k] = v
                        first.setdefault(k, (v0, v))
                facts = []
                if e.collect:
                    c = t.band(*trace)
                    facts = [t.implies(c, f) for f in e.collect]
                if e.side == 'spec':
                    g = t.band(t.lt(self.jT, self.N), *trace)
                    for rc in e.recs[self.prec:]:
                        rc.facts = [t.implies(g, f) for f in rc.facts]
                        for f in rc.fns:
                            f.guard = t.band(g, f.guard)
                if e.short and not st.short:
                    out = ('ok', 'short')
                paths.append((trace, out, ch, facts, st.events()))

            e.explore(fn, on_path)
        finally:
            e.undo(mk)
            e.collect = sv_collect
            e.loop_mark = sv_mark
            e.loop_stack = e.loop_stack[:-1]
            e.loop_vars = lv
            if e.side != 'spec':
                e.jstack = e.jstack[:-1]
            st.restore()
        if self.check_reads(paths):
            return self.round()
        return self.merge_lazy(paths), changed, bad, first

    def check_reads(self, paths):
        """what the body reads from a container is not what earlier iterations put there; an inner dictionary made
        by the first iteration that needs it is allowed: True if one was found"""
        found = False
        for h, key in OrderedSet((k, None) for k in ((h, k if isinstance(k, str) else None) for h, k in self.st.reads)):
            if (h, key) in self.st.lazy:
                continue
            for p in paths:
                for ev in p[4].get(h, ()):
                    if key is not None and not sets_str(ev, key):
                        continue
                    o = self.st.heap[h]
                    if key is None or not isinstance(o, SDict) or ev[0] != 'set' or not isinstance(ev[2], SDict) \
                            or len(self.e.loop_stack) or not self.lacks(o, key):
                        raise Unsupported('a loop reads what earlier iterations have changed')
                    found = True
                    self.e.uid += 1
                    self.st.lazy[h, key] = 'present!%d' % self.e.uid
        return found

    def lacks(self, o, key):
        return all(ev[0] == 'set' and isinstance(ev[1], str) and ev[1] != key for ev in o._log)

    def merge_lazy(self, paths):
        """`if k not in d: d[k] = {}` followed by `d[k][x] = y` is one update, whether the inner dictionary is there or not"""
        if not self.st.lazy:
            return paths
        names = {v: k for k, v in self.st.lazy.items()}
        out, seen = [], {}
        for trace, o, ch, facts, evs in paths:
            absent = set()
            tr = []
            for c in trace:
                a, neg = (c.args[0], True) if c.k == 'not' else (c, False)
                if a.k == 'bapp' and a.args[0] in names:
                    if neg:
                        absent.add(names[a.args[0]])
                else:
                    tr.append(c)
            evs = dict(evs)
            for h, key in self.st.lazy:
                new = []
                for ev in evs.get(h, ()):
                    if not sets_str(ev, key) or ev[0] == 'sub':
                        new.append(ev)
                    elif ev[0] == 'set' and (h, key) in absent and isinstance(ev[2], SDict) and ev[2].default_factory is None \
                            and ev[2]._log and all(x[0] == 'set' for x in ev[2]._log):
                        new += [('sub', key, x[1], x[2]) for x in ev[2]._log]
                    else:
                        raise Unsupported('an inner dictionary replaced in a loop')
                if h in evs:
                    evs[h] = new
            if o[0] == 'ok':
                k = tuple(x.id for x in tr)
                r = repr((o, sorted(ch.items(), key=repr), sorted(evs.items())))
                if k in seen:
                    if seen[k] != r:
                        raise Unsupported('effects depend on whether an inner dictionary is there')
                    continue
                seen[k] = r
            out.append((tr, o, ch, facts, evs))
        return out

    # ------------------------------------------------ binding candidates
    def candidates(self, k, v0, v1):
        e = self.e
        t0, t1 = index(v0), index(v1)
        if (getattr(type(v0), '_loopidx', None) or getattr(type(v1), '_loopidx', None)) \
                and not (type(v0) is type(v1) and v0.name == v1.name):
            t0 = None
        if t0 is None:
            if t1 is not None and v0 is None and getattr(type(v1), '_loopidx', None) is not None:
                yield Last(v0, v1, self.jA)
            yield None
            return
        d = t.sub(t1, t0) if t1 is not None else None
        late = []
        if e.side != 'spec':
            for rec, mp in self.matched:
                for f in rec.fns:
                    args = [mp.get(a, t.of_atom(a)) for a in f.ctxvars]
                    ent = t.subst(f.entry, mp)
                    off = t.sub(t0, ent)
                    if off.m and e.entails(t.eq(t0, ent)):
                        off = t.ZERO
                    if not off.m:
                        yield Binding(lambda x, f=f, a=args, o=off: t.add(f.at(x, a), o), 'spec ' + f.name)
                    elif self.jA not in t.free(off):
                        late.append(Binding(lambda x, f=f, a=args, o=off: t.add(f.at(x, a), o), 'spec+ ' + f.name))
        for h in e.hints:
            yield from h(self, t0, t1)
        if d is None:
            for b in late:
                yield b
            yield self.havoc()
            yield None
            return
        fr = t.free(d)
        if len(d.m) == 1 and d.c == 0 and d.m[0][1] == 1:
            # one variable-length integer per iteration
            a = d.m[0][0]
            if a.kind == 'app' and a.args[0][:3] in ('VL@', 'DL@') and self.jA not in t.free(a.args[1]):
                nm = ('PV@' if a.args[0][0] == 'V' else 'PD@') + a.args[0][3:]
                if nm in e.recfns:
                    yield Binding(lambda x, n=nm, p=a.args[1], o=t.sub(a.args[1], t0): t.sub(t.app(n, (p, x)), o), 'pv')
        if self.jA not in fr and not (fr and any(a in fr for a in ())):
            yield Binding(lambda x, a=t0, c=d: t.add(a, t.mul(x, c)), 'affine')
        for b in late:
            yield b
        # own recursive function
        known = e.recmap.setdefault((self.uid, k, t0), [])
        for rf in list(known):
            if rf.step is not None:
                yield Binding(lambda x, f=rf: f.at(x), 'rec', rf)
        e.uid += 1
        rf = RecFn('R!%d' % e.uid, list(e.loop_vars), self.jA, t0, self.N)
        rf.complete = False
        e.recfns[rf.name] = rf
        known.append(rf)
        yield Binding(lambda x, f=rf: f.at(x), 'rec', rf)
        yield self.havoc()
        yield None

    def havoc(self):
        """some integer, nothing known about it (over-approximation; not on the specification side)"""
        e = self.e
        if e.side == 'spec':
            return None
        e.uid += 1
        nm = 'H!%d' % e.uid
        lv = tuple(t.of_atom(a) for a in e.loop_vars)
        return Binding(lambda x: t.app(nm, lv + (x,)), 'havoc')

    # a guess for one variable can fail only because the guess for another one is wrong: a rejection
    # counts for the combination it was seen in
    def config(self, k, bound):
        return (id(bound[k]),) + tuple((o, id(b)) for o, b in sorted(bound.items(), key=lambda x: str(x[0])) if o != k)

    def reject(self, k, bound):
        self.rejected.add(self.config(k, bound))

    def choose(self, k):
        def strong(b):
            return b is not None and b.rec is None and b.label != 'havoc'

        def free(b):
            return self.config(k, {**self.bound, k: b}) not in self.rejected
        b = next(self.cands[k], None)
        if not strong(b):
            for o in self.tried[k]:
                if strong(o) and free(o):
                    self.cands[k] = itertools.chain([b], self.cands[k])
                    return o
        self.tried[k].append(b)
        return b

    # ------------------------------------------------ run
    def run(self):
        e = self.e
        e.stats.loops += 1
        self.matched = []
        if e.side == 'spec':
            self.rec = LoopRec('spec', self.jA, self.N, list(e.loop_vars))
            self.rec.complete = False
        for it in range(40):
            e.cnt = self.cnt0
            paths, changed, bad, first = self.round()
            if DEBUG:
                print('ROUND', e.side, self.uid, it, 'N', str(self.N)[:60], {self.keyname(k): (b and b.label) for k, b in self.bound.items()}, 'changed', [self.keyname(k) for k in changed], 'bad', [self.keyname(k) for k in bad])
            redo = False
            for k in changed:
                redo = True
                v0, v1 = first[k]
                self.cands[k] = self.candidates(k, v0, v1)
                self.tried[k] = [next(self.cands[k])]
                self.bound[k] = self.tried[k][0]
            was = dict(self.bound)
            for k in bad:
                redo = True
                self.reject(k, was)
            for k in bad:
                self.bound[k] = self.choose(k)
            # close own recursive functions
            for k, b in self.bound.items():
                if b is None or b.rec is None or b.rec.step is not None:
                    continue
                redo = True
                if changed or bad:
                    continue
                step = None
                ok = True
                for trace, out, ch, facts, evs in paths:
                    if out[0] != 'ok':
                        continue
                    v = ch.get(k, b.fn(self.jT))
                    if not isinstance(v, t.T):
                        ok = False
                        break
                    step = v if step is None else t.ite(t.band(*trace), v, step)
                if not ok or step is None:
                    self.bound[k] = None
                    continue
                b.rec.step = step
                # monotone?
                mk = e.mark()
                try:
                    e._assume(t.lt(self.jT, self.N))
                    self.matched = []
                    self.instantiate(self.jT)
                    for trace, out, ch, facts, evs in paths:
                        for f in facts:
                            e._assume(f)
                    # by induction: everything before iteration j was monotone
                    e._assume(t.le(b.rec.entry, b.fn(self.jT)))
                    b.rec.mono = bool(e.entails(t.le(b.fn(self.jT), step)))
                except PathAbort:
                    pass
                finally:
                    e.undo(mk)
            if not redo:
                break
        else:
            raise Unsupported('loop invariant inference did not converge')
        e.stats.inductions += 1
        exits = [p for p in paths if p[1][0] == 'exit']
        normal = [p for p in paths if p[1][0] == 'ok']
        if e.side == 'spec':
            rec = self.rec
            for k, b in self.bound.items():
                if b is not None and b.rec is not None:
                    b.rec.rec = rec
                    rec.fns.append(b.rec)
            for p in paths:
                for f in p[3]:
                    if f not in rec.facts:
                        rec.facts.append(f)
            rec.complete = True
            e.recs.append(rec)
        if exits:
            e.uid += 1
            c = t.bapp('exit!%d' % self.uid, tuple(t.of_atom(a) for a in e.loop_vars))
            if e.decide(c):
                e.approx = True
                e.uid += 1
                x = t.var('x!%d' % e.uid, 0, None)
                e._assume(t.lt(x, self.N))
                if e.decide(t.lt(t.ZERO, x)):
                    # the iterations before took one of the normal paths
                    self.normality(normal, t.addc(x, -1))
                    self.normality(normal, t.ZERO)
                self.first(normal, x)
                self.matched = []
                self.instantiate(x)
                if e.side == 'spec':
                    e.notes.add('spec exit')
                    self.rec.facts = [t.implies(t.lt(self.jT, x), f) for f in self.rec.facts]
                self.enter(x)
                self.summarise(normal, x)
                r = self.body(self.at(x))
                if r is BREAK or isinstance(r, Ret):
                    return r
                raise PathAbort()
        if not normal:
            # every iteration exits (or is outside the domain): no full run with N > 0
            if any(p[1][0] == 'undef' for p in paths) or exits:
                e.assume(t.eq0(self.N))
                self.st.restore()
                return None
        for k, b in self.bound.items():
            self.st.set(k, Poison(self.keyname(k)) if b is None else b.value(self.N) if isinstance(b, Last) else self.make(k, b.fn(self.N)))
        if any(len(p[1]) > 1 for p in normal):
            e.short = True
        if exits and e.side != 'spec':
            # the last iteration took one of the normal paths
            if e.decide(t.lt(t.ZERO, self.N)):
                self.normality(normal, t.addc(self.N, -1))
                self.normality(normal, t.ZERO)
        if exits:
            self.first(normal, self.N)
        self.summarise(normal, self.N)
        return None

    def normality(self, normal, z):
        """iteration z took one of the normal paths"""
        self.matched = []
        self.instantiate(z)
        self.e.assume(t.bor(*[t.subst(t.band(*p[0]), {self.jA: z}) for p in normal]))

    def first(self, normal, x):
        """this loop was left in iteration x (N: it was not left): with respect to the other loops over as many iterations
        that were left, the iterations before the exit were normal"""
        e = self.e
        if e.loop_vars:
            return
        nc = t.bor(*[t.band(*p[0]) for p in normal])
        for N, y, j, c in list(e.exits):
            if N is not self.N and not e.entails(t.eq(N, self.N)):
                continue
            if y is N and x is self.N:
                continue
            if e.decide(t.lt(y, x)):
                self.normality(normal, y)
            elif e.decide(t.lt(x, y)):
                e.assume(t.subst(c, {j: x}))
        e.exits = e.exits + [(self.N, x, self.jA, nc)]

    def summarise(self, normal, n):
        objs = {}
        for trace, out, ch, facts, evs in normal:
            for i in evs:
                objs.setdefault(i, None)
        for i in objs:
            ps = [(list(trace), evs.get(i, [])) for trace, out, ch, facts, evs in normal]
            self.st.heap[i]._log.append(('loop', LoopNode(self.jA, n, ps, self.uid)))


# ---------------------------------------------------------------- comprehensions
def comp(it, f):
    out = SList()

    def body(x):
        r = f(x)
        if r is SKIP:
            return None
        if isinstance(r, Flat):
            out.extend(r.xs)
        else:
            out.append(r)
        return None
    # the comprehension must be able to see the closure cells of f
    if f.__closure__:
        body.__closure__
    for_(it, body)
    return out
