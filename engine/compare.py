"""Equality of the value the code returns with the value the specification assigns: obligations."""
import numpy as np
from . import terms as t
from . import core, arrays
from . import values as V
from .core import Unsupported, PathAbort, eng
from .values import (SymInt, SymBool, SymFloat, SBytes, SStr, SList, SDict, SByteArray, LoopNode, toT, toF, toB, as_sbytes)
from .arrays import SArr, SRec, SDtype, MaskSel, IX
from .shims import Tok
from .symspec import AnyDt, Rec, Select


def mismatch(path, msg):
    e = eng()
    e.stats.obligations += 1
    # the path itself may be infeasible
    r, _ = e.solve([], 2, timeout=8000, all_pc=True)
    if r == 'unsat':
        e.stats.discharged += 1
        return
    e.fail('%s: %s' % (path, msg), [])


def generic(fn):
    """run fn on every case it distinguishes, facts undone afterwards"""
    e = eng()
    mk = e.mark()
    try:
        e.explore(lambda: (fn(), 1), lambda tr, out: None)
    finally:
        e.undo(mk)


def instantiate(j, n):
    e = eng()
    for rec in e.recs:
        if not rec.complete:
            continue
        for mp in e.ctx_maps(rec):
            k = t.subst(rec.N, mp)
            if k is n or e.entails(t.eq(k, n)):
                m2 = dict(mp)
                m2[rec.j] = j
                for f in rec.facts:
                    e._assume(t.subst(f, m2))


class At:
    """generic index j < n"""
    def __init__(self, j, n):
        self.j, self.n = j, n

    def __enter__(self):
        e = eng()
        e._assume(t.le(t.ZERO, self.j))
        e._assume(t.lt(self.j, self.n))
        e.jstack = e.jstack + [(self.j, self.n)]
        try:
            instantiate(self.j, self.n)
        except PathAbort:
            e.jstack = e.jstack[:-1]
            raise

    def __exit__(self, *a):
        e = eng()
        e.jstack = e.jstack[:-1]


def res(x):
    """resolve case distinctions in an element"""
    e = eng()
    while isinstance(x, t.F) and x.k == 'ite':
        x = x.args[1] if e.decide(x.args[0]) else x.args[2]
    return x


def eq_f(a, b, path):
    a, b = res(a), res(b)
    if a is b:
        e = eng()
        e.stats.obligations += 1
        e.stats.discharged += 1
        e.stats.quick += 1
        return
    if a.k == b.k and len(a.args) == len(b.args):
        sub = list(zip(a.args, b.args))
        if all((isinstance(x, t.T) and isinstance(y, t.T)) or (isinstance(x, t.F) and isinstance(y, t.F)) or x == y
               for x, y in sub):
            for x, y in sub:
                if isinstance(x, t.T):
                    eng().oblige(t.eq(x, y), path)
                elif isinstance(x, t.F):
                    eq_f(x, y, path)
            return
    mismatch(path, 'value %r, specified %r' % (a, b))


def eq_b(a, b, path):
    e = eng()
    if a is b:
        e.stats.obligations += 1
        e.stats.discharged += 1
        e.stats.quick += 1
        return
    e.oblige(t.band(t.implies(a, b), t.implies(b, a)), path)


def eq_el(a, b, path):
    if isinstance(a, t.T) and isinstance(b, t.T):
        eng().oblige(t.eq(a, b), path)
    elif isinstance(a, t.B) and isinstance(b, t.B):
        eq_b(a, b, path)
    elif isinstance(a, t.B) or isinstance(b, t.B):
        a = t.ite(a, t.ONE, t.ZERO) if isinstance(a, t.B) else a
        b = t.ite(b, t.ONE, t.ZERO) if isinstance(b, t.B) else b
        eq_el(a, b, path)
    else:
        if isinstance(a, t.T):
            a = arrays.i2f(a, 64)
        if isinstance(b, t.T):
            b = arrays.i2f(b, 64)
        eq_f(a, b, path)


def number(x):
    return isinstance(x, (int, float, SymInt, SymBool, SymFloat, np.integer, np.floating, np.bool_))


def eqv(got, exp, path):
    e = eng()
    if isinstance(got, V.Poison):
        got._die()
    if isinstance(exp, AnyDt):
        if isinstance(exp.a, SArr):
            return eq_arr(got, exp.a, path, False)
        return eqv(got, exp.a, path)
    if isinstance(exp, (Rec, Select)):
        return eq_rec(got, exp, path)
    if exp is None:
        if got is not None:
            mismatch(path, 'not None')
        return
    if isinstance(exp, SDict):
        if not isinstance(got, (SDict, dict)):
            return mismatch(path, 'expected dict, got %s' % type(got).__name__)
        return eq_dict(got, exp, path)
    if isinstance(exp, tuple):
        if isinstance(got, SList) or not isinstance(got, (tuple,)):
            return mismatch(path, 'expected tuple, got %s' % type(got).__name__)
        if len(got) != len(exp):
            return mismatch(path, 'length %d, expected %d' % (len(got), len(exp)))
        for i, (a, b) in enumerate(zip(got, exp)):
            eqv(a, b, '%s[%d]' % (path, i))
        return
    if isinstance(exp, SList):
        if isinstance(got, (tuple, list)):
            got = SList(got)
        if not isinstance(got, SList):
            return mismatch(path, 'expected list, got %s' % type(got).__name__)
        return eq_list(got, exp, path)
    if isinstance(exp, SArr):
        if isinstance(got, SList) and getattr(got, 'typecode', None) is not None:
            return eq_pyarray(got, exp, path)
        return eq_arr(got, exp, path, True)
    if isinstance(exp, (SByteArray,)) or isinstance(got, SByteArray) and not all(ev[0] == 'ext' for ev in got._log):
        if not isinstance(got, SByteArray):
            b = as_sbytes(got)
            if b is None:
                return mismatch(path, 'expected bytes')
            got = SByteArray(b)
        if not isinstance(exp, SByteArray):
            exp = SByteArray(exp)
        if got.flat() and exp.flat():
            return eq_bytes(got.value, exp.value, path)
        return eq_log(got._log, exp._log, path)
    b = as_sbytes(exp)
    if b is not None:
        g = as_sbytes(got)
        if g is None:
            return mismatch(path, 'expected bytes, got %s' % type(got).__name__)
        return eq_bytes(g, b, path)
    if isinstance(exp, (str, SStr)):
        if not isinstance(got, (str, SStr)):
            return mismatch(path, 'expected str, got %s' % type(got).__name__)
        if isinstance(got, str) and isinstance(exp, str):
            if got != exp:
                mismatch(path, '%r, expected %r' % (got, exp))
            else:
                e.oblige(t.TRUE, path)
            return
        if isinstance(got, SStr) and isinstance(exp, SStr):
            ascii_ = ('ascii', 'us-ascii')
            if got.enc != exp.enc and not (exp.enc in ascii_ and got.enc in ascii_ + ('utf-8', 'latin-1', 'latin1')) \
                    and not (got.enc in ascii_ and exp.enc in ascii_):
                return mismatch(path, 'decoded as %s, expected %s' % (got.enc, exp.enc))
            return eq_bytes(got.raw, exp.raw, path)
        return e.oblige(toB(got == exp), path)
    if hasattr(exp, '__symiter__') and type(exp).__module__ == 'engine.opaque':
        if got is not exp:
            mismatch(path, 'another object')
        else:
            e.oblige(t.TRUE, path)
        return
    if isinstance(exp, Tok):
        return eq_tok(got, exp, path)
    if hasattr(exp, '__astok__'):
        if type(got) is not type(exp):
            return mismatch(path, 'another object')
        return eq_tok(got.__astok__(), exp.__astok__(), path)
    if number(exp):
        if isinstance(got, SArr):
            if got.ndim:
                return mismatch(path, 'array, expected a number')
            got = got.item0()
        if not number(got):
            return mismatch(path, '%s, expected a number' % type(got).__name__)
        a, b = toT(got), toT(exp)
        if a is not None and b is not None:
            return e.oblige(t.eq(a, b), path)
        return eq_el(toF(got) if a is None else a, toF(exp) if b is None else b, path)
    raise Unsupported('comparison with %s' % type(exp).__name__)


def eq_tok(got, exp, path):
    if not isinstance(got, Tok) or got.name != exp.name or len(got.args) != len(exp.args):
        return mismatch(path, 'result of %s expected' % exp.name)
    if not exp.args:
        eng().oblige(t.TRUE, path)
    for i, (a, b) in enumerate(zip(got.args, exp.args)):
        if isinstance(a, t.T):
            eng().oblige(t.eq(a, b), path)
        else:
            eqv(a, b, '%s(%s arg %d)' % (path, exp.name, i))


def eq_bytes(a, b, path):
    e = eng()
    sv, e.side = e.side, 'cmp'
    try:
        generic(lambda: e.oblige(V.bytes_eq(a, b), path))
    finally:
        e.side = sv


def eq_rec(got, exp, path):
    names = tuple(k for k, _ in exp.cols)
    if isinstance(exp, Select):
        if not isinstance(got, MaskSel):
            return mismatch(path, 'expected a selection of records')
        e = eng()
        e.oblige(t.eq(got.N, exp.mask.shape_[0]), path + '.length')

        def f():
            with At(IX[0], got.N):
                m = exp.mask.content()
                eq_b(got.mask, m if exp.keep else t.bnot(m), path + '.mask')
        generic(f)
        if not isinstance(got.dt, SDtype) or got.dt.names != names:
            return mismatch(path, 'fields %r, expected %r' % (getattr(got.dt, 'names', None), names))
        for k, a in exp.cols:
            g = got.arr[k]
            eq_arr(g, a, path + '.' + k, True, guard=got.mask)
        return
    if not isinstance(got, SArr) or not isinstance(got.dt, SDtype):
        return mismatch(path, 'expected a record array, got %s' % type(got).__name__)
    if got.dt.names != names:
        return mismatch(path, 'fields %r, expected %r' % (got.dt.names, names))
    for k, a in exp.cols:
        eq_arr(got[k], a, path + '.' + k, True)


def split_log(a):
    """content before the first loop that writes to the array, and the updates from there on"""
    k = 0
    el = a.el
    while k < len(a._log) and a._log[k][0] != 'loop':
        el = arrays.apply_event(a._log[k], el, a)
        k += 1
    return el, a._log[k:]


def has_loop(log):
    return any(ev[0] == 'loop' for ev in log)


def eq_arr(got, exp, path, strict, guard=None):
    e = eng()
    if isinstance(got, np.ndarray):
        got = arrays.from_numpy(got)
    if isinstance(got, SList) and not strict:
        got = arrays.asarray(got)
    if not isinstance(got, SArr):
        return mismatch(path, 'expected array, got %s' % type(got).__name__)
    if isinstance(got.dt, SDtype):
        return mismatch(path, 'record array, expected plain array')
    if got.ndim != exp.ndim:
        return mismatch(path, '%d dimensions, expected %d' % (got.ndim, exp.ndim))
    if strict and (got.dt.kind != exp.dt.kind or got.dt.itemsize != exp.dt.itemsize):
        return mismatch(path, 'number type %s, expected %s' % (got.dt, exp.dt))
    for k in range(exp.ndim):
        e.oblige(t.eq(got.shape_[k], exp.shape_[k]), '%s.shape[%d]' % (path, k))
    try:
        ga, xa = got.content(), exp.content()
    except Unsupported:
        if got.parent is not None or exp.parent is not None or not (has_loop(got._log) or has_loop(exp._log)):
            raise
        ga, gl = split_log(got)
        xa, xl = split_log(exp)
        eq_elements(ga, xa, got, exp, path, guard)
        # the same writes in the same order; sufficient, not necessary
        sv, e.approx = e.approx, True
        try:
            return eq_log(gl, xl, path)
        finally:
            e.approx = sv
    eq_elements(ga, xa, got, exp, path, guard)


def eq_elements(ga, xa, got, exp, path, guard):
    e = eng()

    def f():
        st = e.jstack
        try:
            for k in range(exp.ndim):
                At(IX[k], exp.shape_[k]).__enter__()
            if guard is not None:
                e._assume(guard)
            eq_el(ga, xa, path + '[i]')
        finally:
            e.jstack = st
    if ga is xa:
        e.stats.obligations += 1
        e.stats.discharged += 1
        e.stats.quick += 1
        return
    generic(f)


def eq_pyarray(got, exp, path):
    """array.array against a one-dimensional array"""
    e = eng()
    if np.dtype(got.typecode) != exp.dt or exp.ndim != 1:
        return mismatch(path, 'array of %s, expected %s' % (got.typecode, exp.dt))
    if not e.oblige(t.eq(got.tlen(), exp.shape_[0]), path + '.length'):
        return
    xa = exp.content()
    e.uid += 1
    j = t.var('k!%d' % e.uid, 0, None)

    def f():
        with At(j, exp.shape_[0]):
            v = got.at(j)
            eq_el(toF(v) if toT(v) is None else toT(v), arrays.esubst(xa, {arrays.IXA[0]: j}), path + '[i]')
    generic(f)


def eq_list(got, exp, path):
    e = eng()
    if got.is_native() and exp.is_native():
        a, b = got.native(), exp.native()
        if len(a) != len(b):
            return mismatch(path, 'length %d, expected %d' % (len(a), len(b)))
        for i, (x, y) in enumerate(zip(a, b)):
            eqv(x, y, '%s[%d]' % (path, i))
        return
    try:
        n, m = got.tlen(), exp.tlen()
    except Unsupported:
        return eq_log(got._log, exp._log, path)
    if not e.oblige(t.eq(n, m), path + '.length'):
        return
    e.uid += 1
    j = t.var('k!%d' % e.uid, 0, None)

    def f():
        with At(j, m):
            eqv(got.at(j), exp.at(j), path + '[i]')
    generic(f)


def flat_log(log):
    """merge consecutive byte appends"""
    out = []
    for ev in log:
        if ev[0] == 'ext' and out and out[-1][0] == 'ext':
            out[-1] = ('ext', SBytes(tuple(out[-1][1].segs) + tuple(ev[1].segs)))
        else:
            out.append(ev)
    return out


def eq_log(a, b, path):
    """the same sequence of effects"""
    e = eng()
    a, b = flat_log(a), flat_log(b)
    if len(a) != len(b) or any(x[0] != y[0] for x, y in zip(a, b)):
        # loops without iterations or effects leave no trace
        a, b = [[ev for ev in q if ev[0] != 'loop' or any(evs for _, evs in ev[1].paths)
                 and not e.entails(t.le(ev[1].N, t.ZERO))] for q in (a, b)]
        a, b = flat_log(a), flat_log(b)
    if len(a) != len(b):
        return seq_mismatch(path)
    for x, y in zip(a, b):
        if x[0] != y[0]:
            return seq_mismatch(path)
        if x[0] == 'loop':
            eq_loop(x[1], y[1], path)
        elif x[0] == 'item':
            eqv(x[1], y[1], path)
        elif x[0] == 'ext':
            eq_bytes(x[1], y[1], path)
        elif x[0] == 'set':
            eqv(x[1], y[1], path + ' key')
            eqv(x[2], y[2], path + ' value')
        elif x[0] == 'del':
            eqv(x[1], y[1], path + ' key')
        elif x[0] == 'sub':
            eqv(x[1], y[1], path + ' key')
            eqv(x[2], y[2], path + ' key')
            eqv(x[3], y[3], path + ' value')
        elif x[0] == 'store':
            eq_store(x, y, path)
        else:
            raise Unsupported('comparison of updates %s' % x[0])


def seq_mismatch(path):
    e = eng()
    sv, e.approx = e.approx, True
    try:
        mismatch(path, 'different sequence of updates')
    finally:
        e.approx = sv


def eq_store(x, y, path):
    e = eng()
    if len(x[1]) != len(y[1]):
        raise Unsupported('store rank')
    for p, q in zip(x[1], y[1]):
        if p[0] != q[0]:
            raise Unsupported('store kinds')
        e.oblige(t.eq(p[1], q[1]), path + ' index')
        if p[0] == 's':
            e.oblige(t.eq(p[2], q[2]), path + ' range')

    def f():
        st = e.jstack
        try:
            for k, q in enumerate([q for q in y[1] if q[0] == 's']):
                At(IX[k], q[2]).__enter__()
            eq_el(x[2], y[2], path + '[i]')
        finally:
            e.jstack = st
    if x[2] is not y[2]:
        generic(f)


def eq_loop(x, y, path):
    e = eng()
    if not e.oblige(t.eq(x.N, y.N), path + '.iterations'):
        return
    e.uid += 1
    j = t.var('k!%d' % e.uid, 0, None)

    def pick(ln):
        mp = {ln.j: j}
        for k, (conds, evs) in enumerate(ln.paths):
            c = t.subst(t.band(*conds), mp)
            if k == len(ln.paths) - 1:
                e._assume(c)
            elif not e.decide(c):
                continue
            return [V.ev_subst(ev, mp) for ev in evs]

    def f():
        with At(j, y.N):
            ye = pick(y)
            xe = pick(x)
            eq_log(xe, ye, path)
    generic(f)


def eq_dict(got, exp, path):
    e = eng()
    if isinstance(got, dict):
        got = SDict(got)
    if not got.is_native() or not exp.is_native():
        a, b = by_key(got._log), by_key(exp._log)
        if a is None or b is None:
            return eq_log(got._log, exp._log, path)
        for k in list(b) + [k for k in a if k not in b]:
            eq_log(a.get(k, []), b.get(k, []), path if k is None else '%s[%s]' % (path, k))
        return
    a, b = got.concrete(), exp.concrete()
    rest = list(a)
    for k, v in b:
        for i, (gk, gv) in enumerate(rest):
            if e.decide(got.key_eq(gk, k)):
                rest.pop(i)
                eqv(gv, v, '%s[%s]' % (path, k if isinstance(k, (str, int)) else '.'))
                break
        else:
            mismatch(path, 'key %r missing' % (k,))
    for k, v in rest:
        mismatch(path, 'unexpected key %r' % (k,))


def by_key(log):
    """the updates of every string key, and of the other keys (None); without those a later update outdates"""
    names = set()

    def walk(log):
        for ev in log:
            if ev[0] == 'loop':
                for _, evs in ev[1].paths:
                    if not walk(evs):
                        return False
            elif ev[0] not in ('set', 'sub') or isinstance(ev[1], SStr):
                return False
            else:
                names.add(ev[1] if isinstance(ev[1], str) else None)
        return True
    if not walk(log):
        return None

    def only(log, k):
        out = []
        for ev in log:
            if ev[0] == 'loop':
                ps = [(c, only(evs, k)) for c, evs in ev[1].paths]
                if any(evs for _, evs in ps):
                    out.append(('loop', LoopNode(ev[1].j, ev[1].N, ps, ev[1].uid)))
            elif (ev[1] if isinstance(ev[1], str) else None) == k:
                if k is not None and ev[0] == 'set':
                    out = []
                out.append(ev)
        return out
    return {k: only(log, k) for k in sorted(names, key=repr)}
