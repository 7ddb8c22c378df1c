"""Bit-vector back end for obligations over shifted and masked integers: linear terms, div/mod by powers of two and
conditionals over bounded non-negative atoms are translated to 128-bit vectors (magnitudes tracked, so that no
operation can wrap)."""
from . import z3path  # noqa
import z3
from . import terms as t
from .terms import T, B, Atom

W = 128
LIM = 1 << 126


class No(Exception):
    pass


class Tr:
    def __init__(self, e):
        self.e = e
        self.memo = {}
        self.vars = {}
        self.side = []

    def leaf(self, a):
        lo, hi = self.e.atom_interval(a)
        if lo is None or hi is None or lo < -(1 << 100) or hi > 1 << 100:
            raise No()
        v = z3.BitVec('b!%d' % a.id, W)
        self.side.append(v >= z3.BitVecVal(lo, W))
        self.side.append(v <= z3.BitVecVal(hi, W))
        self.vars[a] = v
        return v, lo, hi

    def atom(self, a):
        r = self.memo.get(a)
        if r is not None:
            return r
        k = a.kind
        if k == 'div' or k == 'mod':
            c = a.args[1]
            if c & (c - 1):
                raise No()
            x, lo, hi = self.term(a.args[0])
            s = c.bit_length() - 1
            if k == 'div':
                r = (x >> s, lo // c, hi // c)
            elif s == 0:
                r = (z3.BitVecVal(0, W), 0, 0)
            else:
                r = (z3.ZeroExt(W - s, z3.Extract(s - 1, 0, x)), 0, c - 1)
        elif k == 'ite':
            b = self.bool(a.args[0])
            x, l1, h1 = self.term(a.args[1])
            y, l2, h2 = self.term(a.args[2])
            r = (z3.If(b, x, y), min(l1, l2), max(h1, h2))
        else:
            r = self.leaf(a)
        self.memo[a] = r
        return r

    def term(self, x):
        r = self.memo.get(x)
        if r is not None:
            return r
        z, lo, hi = z3.BitVecVal(x.c, W), x.c, x.c
        for a, k in x.m:
            v, l, h = self.atom(a)
            if k < 0:
                l, h = h, l
            lo += k * l
            hi += k * h
            if abs(k) > LIM or lo < -LIM or hi > LIM:
                raise No()
            if k > 0 and k & (k - 1) == 0:
                z = z + (v << (k.bit_length() - 1))
            else:
                z = z + v * z3.BitVecVal(k, W)
        self.memo[x] = (z, lo, hi)
        return z, lo, hi

    def bool(self, b):
        k = b.k
        if k == 'true':
            return z3.BoolVal(True)
        if k == 'false':
            return z3.BoolVal(False)
        if k in ('le', 'eq', 'ne'):
            z, lo, hi = self.term(b.args[0])
            zero = z3.BitVecVal(0, W)
            return z <= zero if k == 'le' else z == zero if k == 'eq' else z != zero
        if k == 'and':
            return z3.And(*[self.bool(y) for y in b.args])
        if k == 'or':
            return z3.Or(*[self.bool(y) for y in b.args])
        if k == 'not':
            return z3.Not(self.bool(b.args[0]))
        raise No()


def bitty(b):
    return sum(1 for a in t.free(b) if isinstance(a, Atom) and a.kind in ('div', 'mod') and a.args[1] & (a.args[1] - 1) == 0) >= 3


def refute(e, goals, timeout=4000):
    """True if goals contradict the facts (bit-vector reasoning)"""
    tr = Tr(e)
    s = z3.Solver()
    s.set('timeout', timeout)
    try:
        for g in goals:
            s.add(tr.bool(g))
    except No:
        return False
    leaves = set(tr.vars)
    for b in e.facts_list():
        fv = {a for a in t.free(b) if isinstance(a, Atom)}
        if not (fv & leaves) or len(fv) > 12:
            continue
        try:
            n = dict(tr.vars)
            z = tr.bool(b)
            if len(tr.vars) == len(n):
                s.add(z)
        except No:
            pass
    for z in tr.side:
        s.add(z)
    import time
    t0 = time.time()
    r = s.check()
    e.stats.solver_time += time.time() - t0
    e.stats.queries += 1
    if r == z3.unsat:
        e.stats.backends['z3-bitvector'] = e.stats.backends.get('z3-bitvector', 0) + 1
        return True
    return False
