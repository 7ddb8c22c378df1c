"""Verification of a function (or method) of /repo against its contract: contract and real code are executed on the
same unknown inputs; on every path of the contract, every path of the code has to end the same way."""
import time
import traceback
from . import terms as t
from . import core, defs, compare, arrays, modstate
from . import values as V
from .core import Engine, Unsupported, PathAbort, SpecUndefined, SpecRaise, eng
from .values import SBytes, toT, mkint
from .block import Result, Covered, where, havocked

ANY = ('Exception',)


class Unit:
    """one function under contract.
    setup(e) -> world; spec(world) -> value (an exception raised there is demanded of the code, see `exc`);
    code(world) -> value; after(world, outcome): further obligations"""
    exc = None             # exception kinds accepted where the contract raises (None: the same class)
    maxpaths = 6000

    def __init__(self, name, setup, spec, code, exc=None, inputs=None, kernel=False, after=None, buf='P', spec_side='spec',
                 replay=None, lim=None):
        self.name, self.setup, self.spec, self.code = name, setup, spec, code
        self.exc = exc
        self.inputs = inputs
        self.kernel = kernel
        self.after = after
        self.buf = buf
        self.replay = replay
        self.spec_side = spec_side
        self.lim = lim


def run(u, deadline=120, shard=None):
    t0 = time.time()
    res = Result()
    e = core.ENG = Engine(deadline=time.time() + deadline)
    cov = Covered()
    try:
        with cov:
            _run(e, res, u, shard)
    except Unsupported as ex:
        res.status = 'unsupported'
        res.reason = str(ex)
        res.where = where(ex)
        res.tb = traceback.format_exc()
    except RecursionError:
        res.status = 'unsupported'
        res.reason = 'recursion'; res.tb = traceback.format_exc()
    s = e.stats
    res.obligations, res.discharged, res.quick = s.obligations, s.discharged, s.quick
    res.queries, res.solver_time, res.loops = s.queries, s.solver_time, s.loops
    res.functions = sorted(cov.names)
    res.notes = sorted(e.notes)
    res.backends = dict(s.backends)
    if res.status == 'proved' and (res.failures or s.obligations != s.discharged):
        res.status = 'failed'
    if res.status == 'proved' and s.obligations == 0:
        res.status = 'unsupported'
        res.reason = 'no obligation was generated'
    res.wall = time.time() - t0
    return res


def _run(e, res, u, shard):
    for b in ([u.buf] if isinstance(u.buf, str) else u.buf):
        defs.register(e, b)
        if u.kernel:
            defs.register_kernel(e, b)
    W = u.setup(e)
    e.base_facts = e.mark()
    heap0, inst0 = len(e.heap), len(e.instances)
    guard = modstate.Guard()

    def reset():
        del e.heap[heap0:]
        del e.instances[inst0:]
        e.recs = []
        e.jstack = []
        e.loop_vars = []
        e.exits = []
        e.short = e.approx = False
        e.loop_mark = 0
        e.events = []

    paths = []

    def spec_fn():
        reset()
        e.side = u.spec_side
        try:
            r = ('value', u.spec(W))
            guard.check()
            return r
        except SpecUndefined:
            return None
        except SpecRaise as x:
            return ('raise', x.kinds)
        except (Unsupported, PathAbort):
            raise
        except Exception as x:
            return ('raise', u.exc or tuple(c.__name__ for c in type(x).__mro__[:1]))

    def spec_path(trace, out):
        paths.append((list(e.pc), out, list(e.recs), e.approx, list(e.exits)))
    e.explore(spec_fn, spec_path)
    res.spec_paths = len(paths)
    if not paths:
        raise Unsupported('the specification has no feasible path')
    if shard is not None:
        paths = paths[shard[0]::shard[1]]

    def code_fn(spec_out, recs, sapprox, exits):
        reset()
        e.recs = list(recs)
        e.exits = list(exits)
        e.side = 'code'
        e.approx = sapprox
        try:
            val = u.code(W)
        except (Unsupported, PathAbort):
            raise
        except Exception as x:
            out = ('exc', x)
        else:
            out = ('value', val)
        judge(e, u, out, spec_out)
        if u.after is not None:
            u.after(W, out)
        guard.check()
        return (1,)

    def on_fail(e_, name, goals):
        res.failures.append(describe(e_, u, name, goals))
    e.on_fail = on_fail
    for pc, out, recs, sapprox, exits in paths:
        mk = e.mark()
        try:
            for b in pc:
                e._assume(b)
            n = [0]

            def on_path(tr, o):
                n[0] += 1
            e.explore(lambda: code_fn(out, recs, sapprox, exits), on_path)
            res.code_paths += n[0]
        except PathAbort:
            pass
        finally:
            e.undo(mk)
        if len(res.failures) > 5:
            break


def judge(e, u, out, exp):
    e.side = 'cmp'
    name = u.name
    if exp[0] == 'value':
        if out[0] == 'value':
            compare.eqv(out[1], exp[1], name)
        else:
            tb = traceback.extract_tb(out[1].__traceback__)
            compare.mismatch(name, 'raises %s: %s (line %s)' % (type(out[1]).__name__, str(out[1])[:200],
                                                              [f.lineno for f in tb][-3:]))
    else:
        if out[0] == 'exc' and any(k in [c.__name__ for c in type(out[1]).__mro__] for k in exp[1]):
            e.stats.obligations += 1
            e.stats.discharged += 1
        elif out[0] == 'exc':
            compare.mismatch(name, 'raises %s: %s, expected %s' % (type(out[1]).__name__, str(out[1])[:200], exp[1]))
        else:
            compare.mismatch(name, 'accepted, expected %s' % (exp[1],))


def describe(e, u, name, goals):
    out = dict(name=name, approx=e.approx or havocked(e, goals), goals=[repr(g)[:400] for g in goals], cands=[])
    if u.inputs is None:
        return out
    try:
        for bound in (u.lim or (24, 64, 600)):
            c = concretize(e, u, goals, bound)
            if c is not None:
                out['cands'].append(c)
                break
    except Unsupported:
        pass
    return out


def concretize(e, u, goals, bound):
    """input values for which the obligation fails: {'name': int, ...} and bytes of the buffers"""
    inp = u.inputs(e)
    goals = list(goals)
    for k, x in inp.items():
        if k.endswith('.len'):
            goals.append(t.le(x, t.const(bound)))
    r, m = e.solve(goals, 2, timeout=10000, want_model=True, all_pc=True)
    if m is None:
        return None

    def ev(x):
        return m.eval(t.tz(x), model_completion=True).as_long()
    out = {k: ev(x) for k, x in inp.items()}
    bufs = {}
    todo = goals + e.facts_list()
    todo += e.axioms(todo, 2)
    atoms = set()
    for b in todo:
        atoms |= t.free(b)
    from specs.native import enc_uvarint
    late = []
    for a in atoms:
        if not isinstance(a, t.Atom) or a.kind != 'app' or '@' not in a.args[0]:
            continue
        nm, b = a.args[0].split('@', 1)
        if nm in ('U8', 'U16', 'U32', 'U64', 'I8', 'I16', 'I32', 'I64'):
            late.append((0 if nm == 'U8' else 1, nm, b, a))
        elif nm == 'VU':
            late.append((2, nm, b, a))
    for _, nm, b, a in sorted(late, key=lambda x: (x[0], x[3].id)):
        p = ev(a.args[1])
        n = out.get(b + '.len', bound)
        if not 0 <= p < n:
            continue
        val = ev(t.of_atom(a))
        if nm == 'VU':
            try:
                bs = enc_uvarint(val, length=ev(defs.vl(b, a.args[1])))
            except Exception:
                continue
        else:
            k = int(nm[1:]) // 8
            bs = (val % (1 << (8 * k))).to_bytes(k, 'little')
        d = bufs.setdefault(b, {})
        for i, x in enumerate(bs):
            if p + i < n:
                d.setdefault(p + i, x)
    out['bytes'] = {b: {int(k): int(v) for k, v in d.items()} for b, d in bufs.items()}
    return out


def outcome_of(u, deadline, confirm=None, search=None, soft=()):
    """run a unit and turn the result into a task outcome; confirm(cand) -> replay dicts to try;
    search() -> (failure|None, cases, distinct)"""
    from . import runner, replays
    r = run(u, deadline)
    o = runner.outcome(u.name, status=r.status, reason=r.reason, obligations=r.obligations, discharged=r.discharged,
                       quick=r.quick, queries=r.queries, solver_time=r.solver_time, functions=r.functions,
                       notes=list(r.notes), loops=r.loops, backends=r.backends)
    if getattr(r, 'where', ''):
        o['reason'] += ' (%s)' % r.where
    fails = []
    for f in r.failures:
        f = dict(f, confirmed=False, text='')
        if confirm is not None:
            for c in f.get('cands', []):
                for rp in confirm(c):
                    x = try_replay(rp)
                    if x:
                        f.update(confirmed=True, text=x, replay=rp)
                        break
                if f['confirmed']:
                    break
        fails.append(f)
        if f['confirmed']:
            break
    o['failures'] = fails
    if r.status != 'proved' and not any(f['confirmed'] for f in fails):
        if search is not None:
            f, c, d = search()
            o['cases'] += c
            o['distinct'] += d
            o['bounded'] = '%d random inputs' % c
            if f:
                if r.failures:
                    f['name'] = r.failures[0]['name'] + ' (input found by search)'
                o['failures'] = [f]
        if not any(f['confirmed'] for f in o['failures']):
            if r.status == 'unsupported' or all(f.get('approx') or any(k in f['name'] for k in SOFT) for f in fails):
                if fails:
                    o['reason'] = (o['reason'] + ' unconfirmed: ' + fails[0]['name'])[:300]
                o['status'] = 'unsupported'
                o['failures'] = []
    if o['failures']:
        o['status'] = 'failed'
    return o


SOFT = ('raises TypeError', 'raises AttributeError', ': private ')


def try_replay(rp, seconds=10):
    from . import runner, replays
    runner.note_case(rp)
    try:
        with runner.limited(seconds):
            return replays.run(rp)
    except runner.Hang:
        return 'no result within %d s' % seconds
    except MemoryError:
        return 'out of memory'
    finally:
        runner.clear_case()
