"""Verification of one block parser against its specification: the real parse() method, read from the
working tree, is executed on an unknown payload and its result proved equal to the specified value."""
import sys
import time
import traceback
from . import terms as t
from . import core, defs, loops, arrays
from . import values as V
from .core import Engine, Unsupported, PathAbort, SpecUndefined, SpecRaise, eng
from .values import SBytes, SymInt, toT, mkint
from . import shims, contracts, symspec, compare, modstate
from .shims import Loader

LIGHT = ('eventio',)


def havocked(e, goals):
    """does the obligation depend on an over-approximated loop variable"""
    seen = set()
    todo = list(goals) + e.facts_list()
    while todo:
        for a in t.free(todo.pop()):
            if a in seen or not isinstance(a, t.Atom) or a.kind != 'app':
                continue
            seen.add(a)
            if a.args[0].startswith('H!'):
                return True
            f = e.recfns.get(a.args[0])
            if f is not None and f.step is not None:
                todo.append(f.step)
    return False


def make_loader(tools_contract=True, base_contract=True):
    ld = Loader({'eventio.header': contracts.header_module, 'eventio.var_int': contracts.varint_module,
                 'eventio.simtel.parsing': contracts.parsing_module})
    ld.light = LIGHT

    def tools(m):
        m.read_unsigned_varint = contracts.read_unsigned_varint
        m.read_varint = contracts.read_varint
        m.read_unsigned_varint._contract = m.read_varint._contract = True
    if tools_contract:
        ld.on_load['eventio.tools'] = tools

    def base(m):
        contracts.install_payload_contract(m.EventIOObject)
    if base_contract:
        ld.on_load['eventio.base'] = base
    return ld


class Covered:
    """names of the functions of /repo that were executed"""
    def __init__(self):
        self.names = set()
        self.tool = None

    def __enter__(self):
        try:
            m = sys.monitoring
            m.use_tool_id(4, 'verif')
            m.register_callback(4, m.events.PY_START, self.cb)
            m.set_events(4, m.events.PY_START)
            m.restart_events()
            self.tool = 4
        except Exception:
            pass
        return self

    def cb(self, code, off):
        f = code.co_filename
        if f.startswith(shims.SRC):
            q = code.co_qualname.replace('.<locals>', '')
            if not q.startswith('<module>') and '__.<' not in q and '_body' not in q and '_cond' not in q:
                self.names.add(f[len(shims.SRC) + 1:] + ':' + q)
        return sys.monitoring.DISABLE

    def __exit__(self, *a):
        if self.tool is not None:
            sys.monitoring.set_events(4, 0)
            sys.monitoring.free_tool_id(4)


def header_for(e, cls, version, spec, versions):
    if version is None:
        v = t.var('hdr.version', 0, 4095)
        for k in versions:
            e._assume(t.bnot(t.eq(v, t.const(k))))
        v = mkint(v)
    else:
        v = version
    i = t.var('hdr.id', -(1 << 31), (1 << 31) - 1)
    tel = None
    et = cls.eventio_type
    if spec['ids'] == 'tracking':
        tl = t.var('hdr.tel', 0, 999)
        tel = mkint(tl)
        et = mkint(t.addc(t.add(t.mod(tl, 100), t.scale(t.div(tl, 100), 1000)), 2100))
        ids = t.var('hdr.idrest', 0, (1 << 31) - 1)
        # low byte and bits 24.. of the id carry the telescope
        e._assume(t.eq(t.mod(i, 256), t.mod(tl, 256)))
        e._assume(t.eq(t.mod(t.div(i, 1 << 24), 64), t.div(tl, 256)))
    return et, v, i, tel


class Result:
    def __init__(self):
        self.status = 'proved'      # proved | failed | unsupported
        self.reason = ''
        self.failures = []
        self.obligations = self.discharged = self.quick = self.queries = 0
        self.solver_time = self.wall = 0.0
        self.spec_paths = self.code_paths = self.loops = 0
        self.functions = []
        self.notes = []
        self.backends = {}


def run(path, version, versions, mode='spec', deadline=120, etype=None, shard=None):
    """verify block `path` at `version` (None: every unsupported version)"""
    t0 = time.time()
    res = Result()
    e = core.ENG = Engine(deadline=time.time() + deadline)
    defs.register(e, 'P')
    cov = Covered()
    try:
        with cov:
            _run(e, res, path, version, versions, mode, shard)
    except Unsupported as ex:
        res.status = 'unsupported'
        res.reason = str(ex)
        res.where = where(ex)
    except RecursionError:
        res.status = 'unsupported'
        res.reason = 'recursion'
    s = e.stats
    res.obligations, res.discharged, res.quick = s.obligations, s.discharged, s.quick
    res.queries, res.solver_time, res.loops = s.queries, s.solver_time, s.loops
    res.functions = sorted(cov.names)
    res.notes = sorted(e.notes)
    res.backends = dict(s.backends)
    if res.status == 'proved' and (res.failures or s.obligations != s.discharged):
        res.status = 'failed'
    if res.status == 'proved' and s.obligations == 0:
        res.status = 'unsupported'
        res.reason = 'no obligation was generated'
    res.wall = time.time() - t0
    return res


def where(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    for f in reversed(tb):
        if f.filename.startswith(shims.SRC) or f.filename.endswith('specs/blocks.py'):
            return '%s:%d' % (f.filename.replace(shims.SRC + '/', ''), f.lineno)
    return ''


def _run(e, res, path, version, versions, mode, shard=None):
    ld = make_loader()
    modname, clsname = path.split(':')
    spec = symspec.load(ld).BLOCKS[path]
    mod = ld.load(modname)
    cls = getattr(mod, clsname)
    et, v, idT, tel = header_for(e, cls, version, spec, versions)
    L = t.var('P.len', 0, (1 << 42))
    buf = V.Buf('P', L)
    e.base_facts = e.mark()
    heap0, inst0 = len(e.heap), len(e.instances)
    guard = modstate.Guard() if mode == 'spec' else None

    def reset():
        del e.heap[heap0:]
        del e.instances[inst0:]
        e.recs = []
        e.jstack = []
        e.loop_vars = []
        e.exits = []
        e.short = e.approx = False
        e.loop_mark = 0

    paths = []

    def spec_fn():
        reset()
        e.side = 'spec'
        h = symspec.Hdr(type=et, version=v, id=mkint(idT), tel=tel, content_size=mkint(L))
        r = symspec.SymReader(buf, t.ZERO, L)
        try:
            return ('value', spec['fn'](r, h))
        except SpecUndefined:
            return None
        except SpecRaise as x:
            return ('raise', x.kinds)

    def spec_path(trace, out):
        paths.append((list(e.pc), out, list(e.recs), e.approx, list(e.exits)))
    e.explore(spec_fn, spec_path)
    res.spec_paths = len(paths)
    if not paths:
        raise Unsupported('the specification has no feasible path')
    if shard is not None:
        paths = paths[shard[0]::shard[1]]

    def code_fn(spec_out, recs, sapprox, exits):
        reset()
        e.recs = list(recs)
        e.exits = list(exits)
        e.side = 'code'
        e.approx = sapprox
        obj = build(cls, et, v, mkint(idT), buf, L, L)
        if mode == 'again':
            obj.seek(mkint(t.var('p0', 0, 1 << 42)))
            before = frame_of(cls, obj)
        try:
            val = obj.parse()
        except (Unsupported, PathAbort):
            raise
        except Exception as x:
            out = ('exc', x)
        else:
            out = ('value', val)
        if mode == 'again':
            frame_check(e, cls, obj, before)
        judge(e, clsname, out, spec_out)
        if guard is not None:
            guard.check()
        return (1,)

    def on_fail(e_, name, goals):
        res.failures.append(describe(e_, name, goals))
    e.on_fail = on_fail
    for pc, out, recs, sapprox, exits in paths:
        mk = e.mark()
        try:
            for b in pc:
                e._assume(b)
            n = [0]

            def on_path(tr, o):
                n[0] += 1
            e.explore(lambda: code_fn(out, recs, sapprox, exits), on_path)
            res.code_paths += n[0]
        except PathAbort:
            pass
        finally:
            e.undo(mk)
        if len(res.failures) > 5:
            break
    res.spec_prog = None


def build(cls, et, version, id_, buf, size, avail):
    obj = cls.__new__(cls)
    hdr = contracts.ObjectHeader(type=et, version=version, id=id_, user=False, extended=False, only_subobjects=False,
                                 header_size=16, content_address=0, content_size=mkint(size))
    data = SBytes([('b', buf, t.ZERO, avail)])
    cls.__init__(obj, hdr, contracts.Payload(data))
    if not any(x is obj for x in eng().instances):
        eng().instances.append(obj)
    return obj


def frame_of(cls, obj):
    mods = {c.__module__ for c in cls.__mro__ if c.__module__.startswith('eventio')}
    g = {}
    for c in cls.__mro__:
        if c.__module__.startswith('eventio'):
            g.update({(c.__name__, k): v for k, v in vars(c).items() if not k.startswith('__')})
            f = next((x for x in vars(c).values() if hasattr(x, '__globals__')), None)
            if f is not None:
                g.update({('global', k): v for k, v in f.__globals__.items() if not k.startswith('__')})
    return dict(vars(obj)), g, {k: content(v) for k, v in list(vars(obj).items()) + list(g.items())}


def content(v):
    """what a mutable container holds"""
    if isinstance(v, (list, dict, set)) and len(v) < 1000:
        return [id(x) for x in (v.items() if isinstance(v, dict) else v)] if not isinstance(v, dict) else \
            [(k, id(x)) for k, x in v.items()]
    return None


def frame_check(e, cls, obj, before):
    """parsing changes nothing but the position"""
    at, g, cont = before
    pos = set()
    mk = e.mark()
    a, g2, cont2 = frame_of(cls, obj)
    obj2 = obj
    # attributes that hold the position: those seeking changes
    for k in at:
        if isinstance(at[k], SymInt) and toT(at[k]) is t.var('p0', 0, 1 << 42):
            pos.add(k)
    e.side = 'cmp'
    for k in set(at) | set(a):
        if k in pos:
            continue
        if k not in a or k not in at:
            compare.mismatch('frame', ': private attribute %s' % k)
        elif a[k] is not at[k] and not (isinstance(a[k], (int, str, bool, type(None))) and a[k] == at[k]):
            if isinstance(a[k], SymInt) and isinstance(at[k], SymInt) and toT(a[k]) is toT(at[k]):
                continue
            compare.mismatch('frame', ': private attribute %s changes' % k)
        else:
            e.stats.obligations += 1
            e.stats.discharged += 1
    for k in set(g) | set(g2):
        if k not in g or k not in g2 or g[k] is not g2[k]:
            if k[0] == 'global' and k in g2 and k not in g:
                continue
            compare.mismatch('frame', ': private global or class attribute %s changes' % (k,))
    for k in cont:
        if k in cont2 and cont[k] != cont2[k]:
            compare.mismatch('frame', ': private content of %s changes' % (k,))


def judge(e, name, out, exp):
    e.side = 'cmp'
    if exp[0] == 'value':
        if out[0] == 'value':
            compare.eqv(out[1], exp[1], name)
        else:
            compare.mismatch(name, 'raises %s: %s' % (type(out[1]).__name__, str(out[1])[:200]))
    else:
        if out[0] == 'exc' and any(k in [c.__name__ for c in type(out[1]).__mro__] for k in exp[1]):
            e.stats.obligations += 1
            e.stats.discharged += 1
        elif out[0] == 'exc':
            compare.mismatch(name, 'raises %s, expected %s' % (type(out[1]).__name__, exp[1]))
        else:
            compare.mismatch(name, 'accepted, expected %s' % (exp[1],))


def describe(e, name, goals):
    """failed obligation with concrete candidate inputs"""
    out = dict(name=name, approx=e.approx or havocked(e, goals), goals=[repr(g)[:400] for g in goals], cands=[])
    try:
        for bound in (64, 600, 6000):
            c = concretize(e, goals, bound)
            if c is not None:
                out['cands'].append(c)
                break
    except Unsupported:
        pass
    return out


def concretize(e, goals, bound):
    import z3
    L = t.var('P.len', 0, (1 << 42))
    goals = list(goals) + [t.le(L, t.const(bound))]
    r, m = e.solve(goals, 2, timeout=10000, want_model=True, all_pc=True)
    if m is None:
        return None

    def ev(x):
        return m.eval(t.tz(x), model_completion=True).as_long()
    n = ev(L)
    data = {}
    seen = set()
    todo = list(goals) + e.facts_list()
    todo += e.axioms(todo, 2)
    atoms = set()
    for b in todo:
        atoms |= t.free(b)
    from specs.native import enc_uvarint
    late = []
    for a in atoms:
        if not isinstance(a, t.Atom) or a.kind != 'app' or '@P' not in a.args[0]:
            continue
        nm = a.args[0].split('@')[0]
        if nm in ('U8', 'U16', 'U32', 'U64', 'I8', 'I16', 'I32', 'I64'):
            late.append((0, nm, a))
        elif nm in ('VU',):
            late.append((1, nm, a))
    for _, nm, a in sorted(late, key=lambda x: (x[0], x[2].id)):
        p = ev(a.args[1])
        if not 0 <= p < n:
            continue
        val = ev(t.of_atom(a))
        if nm == 'VU':
            ln = ev(defs.vl('P', a.args[1]))
            bs = enc_uvarint(val, length=ln)
        else:
            k = int(nm[1:]) // 8
            bs = (val % (1 << (8 * k))).to_bytes(k, 'little')
        for i, b in enumerate(bs):
            data.setdefault(p + i, b)
    h = {}
    for k, lo, hi in (('version', 0, 4095), ('id', -(1 << 31), (1 << 31) - 1), ('tel', 0, 999)):
        h[k] = ev(t.var('hdr.' + k, lo, hi))
    return dict(hdr=h, len=n, data={int(k): int(v) for k, v in data.items() if k < n})
