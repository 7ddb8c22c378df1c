"""Symbolic execution engine: path exploration, facts, solver queries, loops by induction."""
import time
from . import z3path  # noqa
import z3
from . import terms as t
from .terms import T, B, F, Atom


class Unsupported(BaseException):
    """construct outside the verifier's reach"""


class PathAbort(BaseException):
    """path condition is infeasible"""


class SpecUndefined(BaseException):
    """input outside the domain of the specification"""


class SpecRaise(BaseException):
    """the specification demands an exception of one of these kinds"""
    def __init__(self, *kinds):
        self.kinds = kinds


ENG = None            # current engine


def eng():
    return ENG


class Ctx:
    def __init__(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.forks = []


class RecFn:
    """recursively defined function of a loop index"""
    def __init__(self, name, ctxvars, j, entry, N):
        self.name = name
        self.ctxvars = tuple(ctxvars)     # atoms
        self.j = j                        # atom
        self.entry = entry                # T over ctxvars
        self.N = N                        # T over ctxvars
        self.step = None                  # T over ctxvars, j (mentions self.at(j))
        self.mono = False
        self.maxstep = None
        self.lo = None
        self.hi = None
        self.rec = None
        self.guard = t.TRUE
        t.REC[name] = self._hook

    def _hook(self, args):
        if args[-1].m == () and args[-1].c == 0:
            return t.subst(self.entry, dict(zip(self.ctxvars, args[:-1])))
        return None

    def at(self, x, ctxargs=None):
        if ctxargs is None:
            ctxargs = [t.of_atom(a) for a in self.ctxvars]
        return t.app(self.name, tuple(ctxargs) + (x,), self.lo, self.hi)

    def step_at(self, ctxargs, x):
        if self.step is None:
            return None
        mp = dict(zip(self.ctxvars, ctxargs))
        mp[self.j] = x
        return t.subst(self.step, mp)


class LoopRec:
    def __init__(self, side, j, N, ctxvars):
        self.side = side
        self.j = j
        self.N = N
        self.ctxvars = tuple(ctxvars)
        self.fns = []
        self.facts = []       # B over ctxvars, j  valid for 0<=j<N
        self.complete = True

    def facts_key(self):
        return tuple(b.id for b in self.facts)


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_time = 0.0
        self.obligations = 0
        self.discharged = 0
        self.quick = 0
        self.paths = 0
        self.loops = 0
        self.inductions = 0
        self.backends = {}


class Engine:
    def __init__(self, max_paths=6000, deadline=None):
        self.pc = []
        self.known = {}            # B -> True
        self.bnd = {}              # m-key -> [lo, hi]
        self.trail = []
        self.others = []           # facts that are not simple bounds
        self.ctx = None
        self.heap = []
        self.loop_vars = []        # atoms of enclosing generic iterations
        self.jmap = {}             # spec loop var atom -> T
        self.recs = []             # spec loop records
        self.recfns = {}
        self.fnaxioms = {}         # app name -> fn(engine, atom) -> list of B
        self.side = 'code'
        self.cnt = 0
        self.stats = Stats()
        self.max_paths = max_paths
        self.qcache = {}
        self.factcache = {}
        self.failed = []
        self.deadline = deadline
        self.short = False
        self.collect = None        # list collecting assumed facts inside a spec loop body
        self.events = []
        self.depth = 0
        self.notes = set()
        self.instances = []
        self.uid = 0
        self.uidmap = {}
        self.recmap = {}
        self.loop_mark = 0
        self.jstack = []
        self.loop_stack = []       # states of the symbolic loops whose bodies are being explored
        self.approx = False
        self.exits = []            # loops left in some iteration: (N, where, loop variable, condition of a normal iteration)
        self.while_induction = False
        self.hints = []            # further binding candidates for loop variables
        self.consts = {}           # atom -> constant term, for atoms known to be constant

    # ------------------------------------------------------------ helpers
    def ctx_maps(self, rec):
        """candidate maps from the loop variables enclosing a spec loop to the current ones"""
        import itertools
        k = len(rec.ctxvars)
        if k == 0:
            return [{}]
        if k > len(self.jstack):
            return []
        return [dict(zip(rec.ctxvars, [x for x, _ in c])) for c in itertools.combinations(self.jstack, k)]

    def note_read(self, obj, key=None, pos=-1):
        """content of obj, up to log entry pos, is read: in a loop, it may depend on iterations before"""
        h = getattr(obj, '_hid', 1 << 60)
        for st in self.loop_stack:
            if h < st.heap_mark and pos < st.loglen[h]:
                st.reads.append((h, key))

    def can_mutate(self, obj):
        return getattr(obj, '_hid', 1 << 60) >= self.loop_mark

    def fresh(self, prefix, lo=None, hi=None):
        self.cnt += 1
        tag = '' if lo is None and hi is None else '[%s,%s]' % (lo, hi)
        return t.var('%s!%d%s' % (prefix, self.cnt, tag), lo, hi)

    def check_deadline(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')

    # ------------------------------------------------------------ facts
    def mark(self):
        return len(self.trail)

    def undo(self, mk):
        tr = self.trail
        while len(tr) > mk:
            kind, k, old = tr.pop()
            if kind == 'b':
                if old is None:
                    del self.bnd[k]
                else:
                    self.bnd[k] = old
            elif kind == 'k':
                del self.known[k]
            elif kind == 'o':
                self.others.pop()
            elif kind == 'pc':
                self.pc.pop()
            elif kind == 'c':
                del self.consts[k]

    def simp(self, b):
        """b with the atoms known to be constant replaced by their values"""
        c = self.consts
        for _ in range(4):
            if not c or t.free(b).isdisjoint(c.keys()):
                return b
            n = t.subst(b, c)
            if n is b:
                return b
            b = n
        return b

    def _collapse(self, a, v):
        """a is known to equal v: restate the facts that mention a inside other terms"""
        if a in self.consts:
            return
        self.consts[a] = t.const(v)
        self.trail.append(('c', a, None))
        for key, (lo, hi) in list(self.bnd.items()):
            x = t.mk(0, key)
            if a not in t.free(x) or len(key) == 1 and key[0][0] is a:
                continue
            y = t.subst(x, {a: t.const(v)})
            if y is x:
                continue
            if lo is not None:
                self._assume(t.le0(t.addc(t.scale(y, -1), lo)))
            if hi is not None:
                self._assume(t.le0(t.addc(y, -hi)))
        for b in list(self.others):
            if a in t.free(b):
                self._assume(t.subst(b, {a: t.const(v)}))

    def assume(self, b):
        if b is t.TRUE or b in self.known:
            return
        if b is t.FALSE:
            raise PathAbort()
        if self.collect is not None:
            self.collect.append(b)
        self._assume(b)

    def _assume(self, b):
        if b is t.TRUE or b in self.known:
            return
        self.known[b] = True
        self.trail.append(('k', b, None))
        self.pc.append(b)
        self.trail.append(('pc', None, None))
        k = b.k
        if k == 'and':
            for x in b.args:
                self._assume(x)
            return
        s = self.simp(b)
        if s is not b:
            self._assume(s)
        if k == 'le' or k == 'eq':
            x = b.args[0]
            self._bound(x.m, -x.c, True)
            if k == 'eq':
                self._bound(x.m, -x.c, False)
            return
        if k == 'false':
            raise PathAbort()
        if k == 'ne':
            key, sg = self._norm(b.args[0].m)
            v = -b.args[0].c * sg
            old = self.bnd.get(key)
            if old is not None:
                # tighten at the ends
                if old[0] is not None and old[0] == v:
                    self._bound(key, v + 1, False)
                elif old[1] is not None and old[1] == v:
                    self._bound(key, v - 1, True)
            elif len(key) == 1 and key[0][1] == 1:
                a = key[0][0]
                if a.lo is not None and a.lo == v:
                    self._bound(key, v + 1, False)
                elif a.hi is not None and a.hi == v:
                    self._bound(key, v - 1, True)
        self.others.append(b)
        self.trail.append(('o', None, None))

    @staticmethod
    def _norm(m):
        if m and m[0][1] < 0:
            return tuple((a, -k) for a, k in m), -1
        return m, 1

    def _bound(self, m, v, upper):
        """record  m <= v  (upper) or m >= v"""
        key, sg = self._norm(m)
        if sg < 0:
            v = -v
            upper = not upper
        old = self.bnd.get(key)
        lo, hi = old if old is not None else (None, None)
        if upper:
            if hi is not None and hi <= v:
                return
            hi = v
        else:
            if lo is not None and lo >= v:
                return
            lo = v
        self.trail.append(('b', key, old))
        self.bnd[key] = (lo, hi)
        if lo is not None and hi is not None and lo >= hi:
            if lo > hi:
                raise PathAbort()
            if len(key) == 1 and lo % key[0][1] == 0:
                self._collapse(key[0][0], lo // key[0][1])

    def interval(self, x):
        """interval of a term using the stored bounds"""
        if not x.m:
            return x.c, x.c
        key, sg = self._norm(x.m)
        b = self.bnd.get(key)
        lo = hi = None
        if b is not None:
            lo, hi = b
            if sg < 0:
                lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
            lo = None if lo is None else lo + x.c
            hi = None if hi is None else hi + x.c
        l2 = h2 = x.c
        for a, k in x.m:
            bl, bh = self.atom_interval(a)
            if k < 0:
                bl, bh = bh, bl
            l2 = None if (l2 is None or bl is None) else l2 + k * bl
            h2 = None if (h2 is None or bh is None) else h2 + k * bh
        if lo is None or (l2 is not None and l2 > lo):
            lo = l2
        if hi is None or (h2 is not None and h2 < hi):
            hi = h2
        return lo, hi

    def atom_interval(self, a):
        lo, hi = a.lo, a.hi
        b = self.bnd.get(((a, 1),))
        if b is None and a in self.consts:
            v = self.consts[a].c
            return v, v
        if b is not None:
            if b[0] is not None and (lo is None or b[0] > lo):
                lo = b[0]
            if b[1] is not None and (hi is None or b[1] < hi):
                hi = b[1]
        if a.kind == 'mul' and (lo is None or hi is None):
            l, h = 1, 1
            for f in a.args:
                fl, fh = self.atom_interval(f)
                l, h = t._imul(l, h, fl, fh)
            if lo is None:
                lo = l
            if hi is None:
                hi = h
        elif a.kind == 'div' and (lo is None or hi is None):
            l, h = self.interval(a.args[0])
            if lo is None and l is not None:
                lo = l // a.args[1]
            if hi is None and h is not None:
                hi = h // a.args[1]
        return lo, hi

    def quick(self, b):
        """True/False/None by cheap reasoning"""
        if b is t.TRUE:
            return True
        if b is t.FALSE:
            return False
        if b in self.known:
            return True
        k = b.k
        if k == 'le':
            x = b.args[0]
            lo, hi = self.interval(x)
            if hi is not None and hi <= 0:
                return True
            if lo is not None and lo > 0:
                return False
            return None
        if k in ('eq', 'ne'):
            x = b.args[0]
            lo, hi = self.interval(x)
            r = None
            if lo is not None and lo > 0 or hi is not None and hi < 0:
                r = False
            elif lo == 0 and hi == 0 and lo is not None:
                r = True
            elif t.bnot(b) in self.known:
                return False
            if r is None:
                return None
            return r if k == 'eq' else not r
        if k == 'and':
            allt = True
            for y in b.args:
                q = self.quick(y)
                if q is False:
                    return False
                if q is None:
                    allt = False
            return True if allt else None
        if k == 'or':
            allf = True
            for y in b.args:
                q = self.quick(y)
                if q is True:
                    return True
                if q is None:
                    allf = False
            return False if allf else None
        if t.bnot(b) in self.known:
            return False
        return None

    # ------------------------------------------------------------ solver
    def facts_list(self):
        out = []
        for key, (lo, hi) in self.bnd.items():
            x = t.mk(0, key)
            if lo is not None and lo == hi:
                out.append(t.eq0(t.addc(x, -lo)))
                continue
            if lo is not None:
                out.append(t.le0(t.addc(t.scale(x, -1), lo)))
            if hi is not None:
                out.append(t.le0(t.addc(x, -hi)))
        out.extend(self.others)
        return [b for b in out if b is not t.TRUE]

    def relevant(self, goals):
        facts = self.facts_list()
        seen = set()
        for g in goals:
            seen |= t.free(g)
        sel = []
        rest = facts
        ch = True
        while ch and rest:
            ch = False
            nr = []
            for b in rest:
                if t.free(b) & seen:
                    sel.append(b)
                    n = t.free(b)
                    if not n <= seen:
                        seen = seen | n
                        ch = True
                else:
                    nr.append(b)
            rest = nr
        return sel

    def axioms(self, bs, level):
        """range and definitional axioms for the atoms occurring in bs"""
        out = []
        done = set()
        frontier = set()
        for b in bs:
            frontier |= t.free(b)
        depth = 0
        maxdepth = 0 if level == 0 else 2 if level < 2 else 4
        allatoms = {}
        while frontier and depth <= maxdepth:
            new = []
            cur = sorted((a for a in frontier if isinstance(a, Atom) and a not in done), key=lambda a: a.id)
            for a in cur:
                done.add(a)
                allatoms[a] = None
                tt = t.of_atom(a)
                if a.kind not in ('mod', 'ite'):
                    if a.lo is not None:
                        out.append(t._b('le', t.addc(t.scale(tt, -1), a.lo)))
                    if a.hi is not None:
                        out.append(t._b('le', t.addc(tt, -a.hi)))
                if a.kind == 'mul':
                    new += self.mul_axioms(a, allatoms)
                elif a.kind == 'app':
                    f = self.recfns.get(a.args[0])
                    if f is not None and level == 0:
                        pass
                    elif f is not None:
                        if depth < maxdepth:
                            new += self.rec_axioms(f, a, allatoms, depth)
                    else:
                        ax = self.fnaxioms.get(a.args[0])
                        if ax is not None:
                            new += ax(self, a, allatoms, level)
            new = [b for b in new if b is not t.TRUE]
            out += new
            frontier = set()
            for b in new:
                frontier |= t.free(b)
            depth += 1
        return out

    def mul_axioms(self, a, allatoms):
        res = []
        if len(a.args) == 2:
            x, y = a.args
            X, Y = t.of_atom(x), t.of_atom(y)
            A = t.of_atom(a)
            for (p, q) in ((X, Y), (Y, X)):
                res.append(t.implies(t.eq0(p), t.eq0(A)))
                res.append(t.implies(t.eq(p, t.ONE), t.eq(A, q)))
            res.append(t.implies(t.band(t.le(t.ZERO, X), t.le(t.ZERO, Y)), t.le(t.ZERO, A)))
            res.append(t.implies(t.band(t.le(t.ONE, X), t.le(t.ONE, Y)),
                                 t.band(t.le(X, A), t.le(Y, A))))
        for b in list(allatoms):
            if b is a or b.kind != 'mul' or len(b.args) != len(a.args):
                continue
            fa, fb = list(a.args), list(b.args)
            com = []
            for f in list(fa):
                if f in fb:
                    fa.remove(f)
                    fb.remove(f)
                    com.append(f)
            if len(fa) == 1 and len(fb) == 1 and com:
                u, v = t.of_atom(fa[0]), t.of_atom(fb[0])
                w = t.ONE
                for f in com:
                    w = t.mul(w, t.of_atom(f))
                A, Bb = t.of_atom(a), t.of_atom(b)
                for (p, P, q, Q) in ((u, A, v, Bb), (v, Bb, u, A)):
                    res.append(t.implies(t.band(t.le(t.ZERO, w), t.le(t.addc(p, 1), q)), t.le(t.add(P, w), Q)))
                res.append(t.implies(t.eq(u, v), t.eq(A, Bb)))
        return res

    def rec_axioms(self, f, a, allatoms, depth):
        res = []
        args = a.args[1:]
        ctxargs, x = args[:-1], args[-1]
        A = t.of_atom(a)
        mp = dict(zip(f.ctxvars, ctxargs))
        N = t.subst(f.N, mp)
        inr = t.band(t.le(t.ZERO, x), t.le(x, N))
        guard = t.subst(f.guard, mp)
        z = t.eq0(x)
        if z is not t.FALSE and self.quick(z) is not False:
            res.append(t.implies(z, t.eq(A, t.subst(f.entry, mp))))
        if f.mono:
            res.append(t.implies(t.band(guard, inr), t.le(t.subst(f.entry, mp), A)))
        if f.maxstep is not None:
            res.append(t.implies(t.band(guard, inr), t.le(A, t.add(t.subst(f.entry, mp), t.scale(x, f.maxstep)))))
        for b in list(allatoms):
            if b is a or b.kind != 'app' or b.args[0] != f.name:
                continue
            if b.args[1:-1] != ctxargs:
                continue
            y = b.args[-1]
            Bt = t.of_atom(b)
            if f.mono:
                for (p, P, q, Q) in ((x, A, y, Bt), (y, Bt, x, A)):
                    res.append(t.implies(t.band(guard, t.le(t.ZERO, p), t.le(p, q), t.le(q, N)), t.le(P, Q)))
            d = t.sub(y, x)
            if not d.m:
                if d.c == 1 and f.step is not None:
                    res.append(t.eq(Bt, f.step_at(ctxargs, x)))
                elif d.c == -1 and f.step is not None:
                    res.append(t.eq(A, f.step_at(ctxargs, y)))
            elif f.step is not None and f.mono and depth == 0:
                # next element is reachable from both: f(p+1) <= f(q) for p<q
                for (p, q, Q) in ((x, y, Bt), (y, x, A)):
                    sp = f.step_at(ctxargs, p)
                    res.append(t.implies(t.band(guard, t.le(t.ZERO, p), t.lt(p, q), t.le(q, N)), t.le(sp, Q)))
        if f.rec is not None and f.rec.complete and depth < 2:
            rm = dict(zip(f.rec.ctxvars, ctxargs))
            rm[f.rec.j] = x
            g = t.band(t.le(t.ZERO, x), t.lt(x, N))
            if self.quick(g) is not False:
                k = (f.rec.facts_key(), ctxargs, x)
                got = self.factcache.get(k)
                if got is None:
                    memo = {}
                    got = self.factcache[k] = [t.implies(g, t.subst(fact, rm, memo)) for fact in f.rec.facts]
                res += got
        return res

    def solve(self, goals, level=1, timeout=4000, want_model=False, all_pc=False):
        """satisfiability of pc and goals; returns ('sat'|'unsat'|'unknown', model)"""
        self.check_deadline()
        sel = self.facts_list() if all_pc else self.relevant(goals)
        key = None
        if not want_model:
            key = (frozenset(b.id for b in goals), frozenset(b.id for b in sel), level)
            r = self.qcache.get(key)
            if r is not None:
                return r, None
        base = list(goals) + sel
        ax = self.axioms(base, level)
        if level >= 2 and not all_pc:
            # facts about what the axioms mention
            sel = self.relevant(base + ax)
            base = list(goals) + sel
            ax = self.axioms(base, level)
        s = z3.Solver()
        s.set('timeout', timeout)
        ref, sv = s.ctx.ref(), s.solver
        for b in base:
            z3.Z3_solver_assert(ref, sv, t.tz(b).as_ast())
        for b in ax:
            z3.Z3_solver_assert(ref, sv, t.tz(b).as_ast())
        t0 = time.time()
        r = s.check()
        self.stats.solver_time += time.time() - t0
        self.stats.queries += 1
        res = str(r)
        if key is not None:
            self.qcache[key] = res
        return res, (s.model() if (want_model and res == 'sat') else None)

    def feasible(self, b):
        b = self.simp(b)
        q = self.quick(b)
        if q is not None:
            return q
        r, _ = self.solve([b])
        return r != 'unsat'

    def entails(self, b, level=1):
        b = self.simp(b)
        q = self.quick(b)
        if q is True:
            return True
        if level < 2:
            from . import bv
            if bv.bitty(b) and bv.refute(self, [t.bnot(b)]):
                return True
            r, _ = self.solve([t.bnot(b)], 0)
            if r == 'unsat':
                return True
        r, _ = self.solve([t.bnot(b)], level)
        if r == 'unsat':
            return True
        if level < 2:
            r, _ = self.solve([t.bnot(b)], 2, timeout=8000)
            return r == 'unsat'
        return False

    # ------------------------------------------------------------ branching
    def decide(self, b):
        b = self.simp(b)
        q = self.quick(b)
        if q is not None:
            return q
        ctx = self.ctx
        if ctx is None:
            raise Unsupported('symbolic branch outside exploration')
        if ctx.pos < len(ctx.prefix):
            d = ctx.prefix[ctx.pos]
            ctx.pos += 1
        else:
            self.check_deadline()
            nb = t.bnot(b)
            if self.solve([nb], 0)[0] == 'unsat':
                ct, cf = True, False
            elif self.solve([b], 0)[0] == 'unsat':
                ct, cf = False, True
            else:
                ct = self.feasible(b)
                cf = self.feasible(nb) if ct else True
            if ct and cf:
                d = True
                ctx.forks.append([x for x, _, _ in ctx.trace] + [False])
                forked = True
            elif ct:
                d = True
            elif not ct and not self.feasible(nb):
                raise PathAbort()
            else:
                d = False
            ctx.prefix = ctx.prefix + [d]
            ctx.pos += 1
        c = b if d else t.bnot(b)
        ctx.trace.append((d, c, None))
        sv, self.collect = self.collect, None
        try:
            self._assume(c)
        finally:
            self.collect = sv
        return d

    def choose(self, name):
        """non-deterministic boolean"""
        self.cnt += 1
        b = t.bapp('choice!%d' % self.cnt, ())
        return self.decide(b)

    def explore(self, fn, on_path):
        """run fn on every feasible path; state restored by fn itself.  on_path(trace, outcome)"""
        saved = self.ctx
        work = [[]]
        n = 0
        cmax = cnt0 = self.cnt
        while work:
            prefix = work.pop()
            n += 1
            if n > self.max_paths:
                raise Unsupported('too many paths')
            mk = self.mark()
            self.cnt = cnt0
            ctx = Ctx(prefix)
            self.ctx = ctx
            try:
                try:
                    out = fn()
                except PathAbort:
                    out = None
                if out is not None:
                    self.stats.paths += 1
                    on_path([c for _, c, _ in ctx.trace], out)
            finally:
                self.ctx = saved
                self.undo(mk)
                cmax = max(cmax, self.cnt)
            work.extend(reversed(ctx.forks))
        self.cnt = cmax
        return n

    # ------------------------------------------------------------ obligations
    def oblige(self, b, name):
        """prove b under the current facts; record failure"""
        self.stats.obligations += 1
        b = self.simp(b)
        q = self.quick(b)
        if q is True:
            self.stats.discharged += 1
            self.stats.quick += 1
            return True
        if self.entails(b):
            self.stats.discharged += 1
            return True
        self.fail(name, [t.bnot(b)])
        return False

    def fail(self, name, goals):
        self.failed.append(dict(name=name, goals=list(goals), pc=list(self.pc), facts=self.facts_list()))
        cb = getattr(self, 'on_fail', None)
        if cb is not None:
            cb(self, name, goals)
