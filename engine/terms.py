"""Hash-consed terms: linear integer terms over atoms, boolean terms, opaque float terms.

T  : integer term  c + sum(coef*atom)         (structural equality)
B  : boolean term
F  : float / opaque value term
"""
import math
from . import z3path  # noqa
import z3

_intern = {}
_next = [0]


def _id():
    _next[0] += 1
    return _next[0]


class Atom:
    __slots__ = ('id', 'kind', 'args', 'lo', 'hi', 'z', 'fv')

    def __repr__(self):
        return show_atom(self)


def atom(kind, args, lo=None, hi=None):
    k = ('A', kind, args)
    a = _intern.get(k)
    if a is None:
        a = Atom()
        a.id = _id()
        a.kind = kind
        a.args = args
        a.lo = lo
        a.hi = hi
        a.z = None
        a.fv = None
        _intern[k] = a
    else:
        if lo is not None and (a.lo is None or lo > a.lo):
            a.lo = lo
        if hi is not None and (a.hi is None or hi < a.hi):
            a.hi = hi
    return a


class T:
    __slots__ = ('c', 'm', 'id', 'z', '_iv', 'fv')

    def __repr__(self):
        return show(self)

    def is_const(self):
        return not self.m


def mk(c, m):
    k = ('T', c, m)
    t = _intern.get(k)
    if t is None:
        t = T()
        t.c = c
        t.m = m
        t.id = _id()
        t.z = None
        t._iv = None
        t.fv = None
        _intern[k] = t
    return t


def const(c):
    return mk(int(c), ())


ZERO = const(0)
ONE = const(1)


def of_atom(a):
    return mk(0, ((a, 1),))


def from_dict(c, d):
    m = tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda x: x[0].id))
    return mk(c, m)


def add(x, y):
    if not y.m:
        return mk(x.c + y.c, x.m)
    if not x.m:
        return mk(x.c + y.c, y.m)
    d = dict(x.m)
    for a, k in y.m:
        d[a] = d.get(a, 0) + k
    return from_dict(x.c + y.c, d)


def scale(x, k):
    if k == 1:
        return x
    if k == 0:
        return ZERO
    return mk(x.c * k, tuple((a, c * k) for a, c in x.m))


def sub(x, y):
    return add(x, scale(y, -1))


def addc(x, c):
    return mk(x.c + c, x.m)


def var(name, lo=None, hi=None):
    return of_atom(atom('var', (name,), lo, hi))


REC = {}          # name -> hook(args) returning a T or None (smart constructors)


def app(fname, args, lo=None, hi=None):
    h = REC.get(fname)
    if h is not None:
        r = h(args)
        if r is not None:
            return r
    return of_atom(atom('app', (fname,) + tuple(args), lo, hi))


def interval(t):
    lo = hi = t.c
    for a, k in t.m:
        if k > 0:
            lo = None if (lo is None or a.lo is None) else lo + k * a.lo
            hi = None if (hi is None or a.hi is None) else hi + k * a.hi
        else:
            lo = None if (lo is None or a.hi is None) else lo + k * a.hi
            hi = None if (hi is None or a.lo is None) else hi + k * a.lo
    return lo, hi


def bitsmask(t):
    """Mask of bits that may be set, or None when the term may be negative/unbounded."""
    if not t.m:
        return t.c if t.c >= 0 else None
    if t.c < 0:
        return None
    acc = t.c
    for a, k in t.m:
        if k <= 0 or (k & (k - 1)):
            acc = None
            break
        ab = atom_bits(a)
        if ab is None:
            acc = None
            break
        ab *= k
        if ab & acc:
            acc = None
            break
        acc |= ab
    if acc is not None:
        return acc
    lo, hi = interval(t)
    if lo is not None and lo >= 0 and hi is not None:
        return (1 << hi.bit_length()) - 1
    return None


def trailing(x):
    """number of low bits known to be zero (also for negative values)"""
    n = 200 if x.c == 0 else (x.c & -x.c).bit_length() - 1
    for a, k in x.m:
        q = (k & -k).bit_length() - 1
        if a.kind == 'mod' and a.args[1] & (a.args[1] - 1) == 0:
            q += min(trailing(a.args[0]), a.args[1].bit_length() - 1)
        elif a.kind == 'ite':
            q += min(trailing(a.args[1]), trailing(a.args[2]))
        elif q < n:
            b = atom_bits(a)
            if b:
                q += (b & -b).bit_length() - 1
        n = min(n, q)
        if n == 0:
            return 0
    return n


def atom_bits(a):
    if a.kind == 'div':
        b = bitsmask(a.args[0])
        c = a.args[1]
        if b is not None and c & (c - 1) == 0:
            return b >> (c.bit_length() - 1)
    if a.kind == 'mod':
        b = bitsmask(a.args[0])
        c = a.args[1]
        if c & (c - 1) == 0:
            return (c - 1) if b is None else b & (c - 1)
    if a.kind == 'ite':
        b1, b2 = bitsmask(a.args[1]), bitsmask(a.args[2])
        if b1 is not None and b2 is not None:
            return b1 | b2
    if a.lo is not None and a.lo >= 0 and a.hi is not None:
        return (1 << a.hi.bit_length()) - 1
    return None


def div(t, c):
    """floor division by a positive constant"""
    assert c > 0
    if c == 1:
        return t
    if not t.m:
        return const(t.c // c)
    # split off the multiples of c
    q = {}
    r = {}
    for a, k in t.m:
        if k % c == 0:
            q[a] = k // c
        else:
            r[a] = k
    qc, rc = divmod(t.c, c)
    rt = from_dict(rc, r)
    base = from_dict(qc, q)
    if not rt.m:
        return addc(base, rt.c // c)
    lo, hi = interval(rt)
    if lo is not None and hi is not None and lo // c == hi // c:
        return addc(base, lo // c)
    # power of two: drop low bits that cannot carry
    if c & (c - 1) == 0:
        b = bitsmask(rt)
        if b is not None:
            # split into parts with coefs: atoms entirely below c vanish if disjoint
            keep = {}
            ok = True
            for a, k in rt.m:
                ab = atom_bits(a)
                if ab is None or k <= 0 or (k & (k - 1)):
                    ok = False
                    break
                if (ab * k) < c:
                    continue
                keep[a] = k
            if ok and sum_disjoint(rt) and len(keep) < len(rt.m):
                kc = (rt.c // c) * c
                return add(base, div(from_dict(kc, keep), c))
    if len(rt.m) == 1 and rt.c == 0 and rt.m[0][1] == 1:
        a = rt.m[0][0]
        if a.kind == 'div':
            return add(base, div(a.args[0], a.args[1] * c))
        if a.kind == 'mod' and a.args[1] % c == 0:
            # (x mod (c*k)) div c = (x div c) mod k
            return add(base, mod(div(a.args[0], c), a.args[1] // c))
    nlo = None if lo is None else lo // c
    nhi = None if hi is None else hi // c
    return add(base, of_atom(atom('div', (rt, c), nlo, nhi)))


def sum_disjoint(t):
    acc = t.c
    if acc < 0:
        return False
    for a, k in t.m:
        ab = atom_bits(a)
        if ab is None or k <= 0 or (k & (k - 1)) or (ab * k) & acc:
            return False
        acc |= ab * k
    return True


def mod(t, c):
    assert c > 0
    if c == 1:
        return ZERO
    if not t.m:
        return const(t.c % c)
    r = {}
    for a, k in t.m:
        k2 = k % c
        if k2 > c // 2:      # symmetric representative
            k2 -= c
        if k2:
            r[a] = k2
    rt = from_dict(t.c % c, r)
    if not rt.m:
        return const(rt.c % c)
    lo, hi = interval(rt)
    if lo is not None and hi is not None and lo // c == hi // c:
        return addc(rt, -(lo // c) * c)
    # also try the constant as negative
    if len(rt.m) == 1 and rt.c == 0 and rt.m[0][1] == 1:
        a = rt.m[0][0]
        if a.kind == 'mod' and a.args[1] % c == 0:
            return mod(a.args[0], c)
    # inner mods with modulus multiple of c can be dropped
    ch = False
    nt = const(rt.c)
    for a, k in rt.m:
        if a.kind == 'mod' and (a.args[1] * abs(k)) % c == 0:
            nt = add(nt, scale(a.args[0], k))
            ch = True
        else:
            nt = add(nt, mk(0, ((a, k),)))
    if ch:
        return mod(nt, c)
    if c & (c - 1) == 0 and sum_disjoint(rt):
        keep = {}
        for a, k in rt.m:
            if k % c == 0:
                continue
            keep[a] = k
        # pieces entirely below c stay, others reduced individually
        out = const(rt.c % c)
        for a, k in keep.items():
            ab = atom_bits(a) * k
            if ab < c:
                out = add(out, mk(0, ((a, k),)))
            else:
                # (k*a) mod c = k*(a mod c/k)
                out = add(out, scale(of_atom(atom('mod', (of_atom(a), c // k), 0, c // k - 1))
                                     if c // k > 1 else ZERO, k))
        return out
    return of_atom(atom('mod', (rt, c), 0, c - 1))


def _imul(l1, h1, l2, h2):
    """product interval; None = unbounded"""
    if l1 is not None and l2 is not None and l1 >= 0 and l2 >= 0:
        return l1 * l2, (None if h1 is None or h2 is None else h1 * h2)
    if None in (l1, h1, l2, h2):
        return None, None
    ps = [l1 * l2, l1 * h2, h1 * l2, h1 * h2]
    return min(ps), max(ps)


def mul(x, y):
    if not x.m:
        return scale(y, x.c)
    if not y.m:
        return scale(x, y.c)
    # distribute to a canonical polynomial over 'mul' atoms (flattened)
    out = {}
    c0 = x.c * y.c
    acc = const(c0)
    acc = add(acc, scale(mk(0, y.m), x.c))
    acc = add(acc, scale(mk(0, x.m), y.c))
    for a, ka in x.m:
        for b, kb in y.m:
            fa = a.args if a.kind == 'mul' else (a,)
            fb = b.args if b.kind == 'mul' else (b,)
            fs = tuple(sorted(fa + fb, key=lambda q: q.id))
            lo, hi = 1, 1
            for f in fs:
                lo, hi = _imul(lo, hi, f.lo, f.hi)
            acc = add(acc, mk(0, ((atom('mul', fs, lo, hi), ka * kb),)))
    return acc


def ite(b, x, y):
    if b is TRUE:
        return x
    if b is FALSE:
        return y
    if x is y:
        return x
    l1, h1 = interval(x)
    l2, h2 = interval(y)
    lo = None if l1 is None or l2 is None else min(l1, l2)
    hi = None if h1 is None or h2 is None else max(h1, h2)
    return of_atom(atom('ite', (b, x, y), lo, hi))


# ---------------------------------------------------------------- booleans
class B:
    __slots__ = ('k', 'args', 'id', 'z', 'fv', 'n')

    def __repr__(self):
        return show_b(self)


def _b(k, *args):
    key = ('B', k, args)
    b = _intern.get(key)
    if b is None:
        b = B()
        b.k = k
        b.args = args
        b.id = _id()
        b.z = None
        b.fv = None
        b.n = None
        _intern[key] = b
    return b


TRUE = _b('true')
FALSE = _b('false')


def le0(t):
    """t <= 0"""
    if not t.m:
        return TRUE if t.c <= 0 else FALSE
    lo, hi = interval(t)
    if hi is not None and hi <= 0:
        return TRUE
    if lo is not None and lo > 0:
        return FALSE
    g = 0
    for _, k in t.m:
        g = math.gcd(g, k)
    if g > 1:
        # sum <= -c  ->  sum/g <= floor(-c/g)
        t = mk(-((-t.c) // g), tuple((a, k // g) for a, k in t.m))
    return _b('le', t)


def le(x, y):
    return le0(sub(x, y))


def lt(x, y):
    return le0(addc(sub(x, y), 1))


def eq0(t):
    if not t.m:
        return TRUE if t.c == 0 else FALSE
    lo, hi = interval(t)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return FALSE
    g = 0
    for _, k in t.m:
        g = math.gcd(g, k)
    if g > 1:
        if t.c % g:
            return FALSE
        t = mk(t.c // g, tuple((a, k // g) for a, k in t.m))
    if t.m[0][1] < 0:
        t = scale(t, -1)
    return _b('eq', t)


def eq(x, y):
    return eq0(sub(x, y))


def bnot(b):
    if b.n is None:
        if b is TRUE:
            r = FALSE
        elif b is FALSE:
            r = TRUE
        elif b.k == 'le':
            r = le0(addc(scale(b.args[0], -1), 1))
        elif b.k == 'eq':
            r = _b('ne', b.args[0])
        elif b.k == 'ne':
            r = _b('eq', b.args[0])
        elif b.k == 'and':
            r = bor(*[bnot(x) for x in b.args])
        elif b.k == 'or':
            r = band(*[bnot(x) for x in b.args])
        elif b.k == 'not':
            r = b.args[0]
        else:
            r = _b('not', b)
        b.n = r
    return b.n


def band(*bs):
    out = []
    for b in bs:
        if b is FALSE:
            return FALSE
        if b is TRUE:
            continue
        if b.k == 'and':
            out.extend(b.args)
        else:
            out.append(b)
    seen = []
    for b in out:
        if b not in seen:
            if bnot_quick(b) in seen:
                return FALSE
            seen.append(b)
    if not seen:
        return TRUE
    if len(seen) == 1:
        return seen[0]
    return _b('and', *seen)


def bnot_quick(b):
    return bnot(b) if b.k in ('le', 'eq', 'ne', 'bapp', 'not') else None


def bor(*bs):
    out = []
    for b in bs:
        if b is TRUE:
            return TRUE
        if b is FALSE:
            continue
        if b.k == 'or':
            out.extend(b.args)
        else:
            out.append(b)
    seen = []
    for b in out:
        if b not in seen:
            if bnot_quick(b) in seen:
                return TRUE
            seen.append(b)
    if not seen:
        return FALSE
    if len(seen) == 1:
        return seen[0]
    return _b('or', *seen)


def implies(a, b):
    return bor(bnot(a), b)


def bapp(fname, args):
    """opaque predicate over T/F args"""
    return _b('bapp', fname, tuple(args))


# ---------------------------------------------------------------- opaque values
class F:
    __slots__ = ('k', 'args', 'id', 'z', 'fv')

    def __repr__(self):
        return show_f(self)


def fterm(k, *args):
    key = ('F', k, args)
    f = _intern.get(key)
    if f is None:
        f = F()
        f.k = k
        f.args = args
        f.id = _id()
        f.z = None
        f.fv = None
        _intern[key] = f
    return f


def feq(a, b):
    if a is b:
        return TRUE
    if a.id > b.id:
        a, b = b, a
    return _b('feq', a, b)


def fite(b, x, y):
    if b is TRUE:
        return x
    if b is FALSE:
        return y
    if x is y:
        return x
    return fterm('ite', b, x, y)


# ---------------------------------------------------------------- traversal
def free(x):
    """frozenset of atoms (transitively) and F terms inside x"""
    fv = x.fv
    if fv is not None:
        return fv
    if isinstance(x, T):
        s = set()
        for a, _ in x.m:
            s.add(a)
            s |= free(a)
        r = frozenset(s)
    elif isinstance(x, (Atom, B, F)):
        s = set()
        if isinstance(x, F):
            s.add(x)
        for y in (x.args[1] if isinstance(x, B) and x.k == 'bapp' else x.args):
            if isinstance(y, (T, B, F)):
                s |= free(y)
            elif isinstance(y, Atom):
                s.add(y)
                s |= free(y)
        r = frozenset(s)
    else:
        raise TypeError(x)
    x.fv = r
    return r


def subst(x, mp, memo=None):
    """replace atoms (var) by terms: mp {Atom: T}"""
    if memo is None:
        memo = {}
    return _subst(x, mp, memo)


def _subst(x, mp, memo):
    if isinstance(x, T):
        if not x.m:
            return x
        r = memo.get(x)
        if r is not None:
            return r
        fv = free(x)
        if not any(a in fv for a in mp):
            memo[x] = x
            return x
        out = const(x.c)
        for a, k in x.m:
            out = add(out, scale(_subst_atom(a, mp, memo), k))
        memo[x] = out
        return out
    if isinstance(x, B):
        r = memo.get(x)
        if r is not None:
            return r
        fv = free(x)
        if not any(a in fv for a in mp):
            memo[x] = x
            return x
        k = x.k
        if k == 'le':
            r = le0(_subst(x.args[0], mp, memo))
        elif k == 'eq':
            r = eq0(_subst(x.args[0], mp, memo))
        elif k == 'ne':
            r = bnot(eq0(_subst(x.args[0], mp, memo)))
        elif k == 'and':
            r = band(*[_subst(y, mp, memo) for y in x.args])
        elif k == 'or':
            r = bor(*[_subst(y, mp, memo) for y in x.args])
        elif k == 'not':
            r = bnot(_subst(x.args[0], mp, memo))
        elif k == 'bapp':
            r = bapp(x.args[0], [_subst(y, mp, memo) if isinstance(y, (T, F, B)) else y for y in x.args[1]])
        elif k == 'feq':
            r = feq(_subst(x.args[0], mp, memo), _subst(x.args[1], mp, memo))
        else:
            raise TypeError(k)
        memo[x] = r
        return r
    if isinstance(x, F):
        r = memo.get(x)
        if r is not None:
            return r
        fv = free(x)
        if not any(a in fv for a in mp):
            memo[x] = x
            return x
        r = fterm(x.k, *[_subst(y, mp, memo) if isinstance(y, (T, B, F)) else y for y in x.args])
        memo[x] = r
        return r
    raise TypeError(x)


def _subst_atom(a, mp, memo):
    if a in mp:
        return mp[a]
    r = memo.get(a)
    if r is not None:
        return r
    k = a.kind
    if k == 'var':
        r = of_atom(a)
    elif k == 'app':
        args = [_subst(y, mp, memo) if isinstance(y, (T, B, F)) else y for y in a.args[1:]]
        r = app(a.args[0], args, a.lo, a.hi)
    elif k == 'div':
        r = div(_subst(a.args[0], mp, memo), a.args[1])
    elif k == 'mod':
        r = mod(_subst(a.args[0], mp, memo), a.args[1])
    elif k == 'mul':
        r = ONE
        for f in a.args:
            r = mul(r, _subst_atom(f, mp, memo))
    elif k == 'ite':
        r = ite(_subst(a.args[0], mp, memo), _subst(a.args[1], mp, memo), _subst(a.args[2], mp, memo))
    else:
        raise TypeError(k)
    memo[a] = r
    return r


# ---------------------------------------------------------------- printing
def show_atom(a):
    if a.kind == 'var':
        return a.args[0]
    if a.kind == 'app':
        return '%s(%s)' % (a.args[0], ', '.join(map(repr, a.args[1:])))
    if a.kind == 'mul':
        return '*'.join(show_atom(f) for f in a.args)
    if a.kind == 'div':
        return '(%r)//%d' % a.args
    if a.kind == 'mod':
        return '(%r)%%%d' % a.args
    return '%s%r' % (a.kind, a.args)


def show(t):
    out = []
    for a, k in t.m:
        out.append(show_atom(a) if k == 1 else '%d*%s' % (k, show_atom(a)))
    if t.c or not out:
        out.append(str(t.c))
    return ' + '.join(out)


def show_b(b):
    k = b.k
    if k == 'le':
        return '(%r <= 0)' % b.args
    if k == 'eq':
        return '(%r == 0)' % b.args
    if k == 'ne':
        return '(%r != 0)' % b.args
    if k in ('and', 'or'):
        return '(' + (' %s ' % k).join(map(repr, b.args)) + ')'
    if k == 'bapp':
        return '%s%r' % (b.args[0], b.args[1])
    return '%s%r' % (k, b.args)


def show_f(f):
    return '%s(%s)' % (f.k, ', '.join(map(repr, f.args)))


# ---------------------------------------------------------------- z3
_val = z3.DeclareSort('Val')
_decl = {}


def _fn(name, sig, rng):
    k = (name, sig)
    d = _decl.get(k)
    if d is None:
        srt = {'i': z3.IntSort(), 'v': _val, 'b': z3.BoolSort()}
        d = z3.Function('%s/%s' % (name, sig), *[srt[c] for c in sig], srt[rng])
        _decl[k] = d
    return d


def _sig(args):
    return ''.join('i' if isinstance(a, T) else 'b' if isinstance(a, B) else 'v' for a in args)


def zatom(a):
    if a.z is None:
        k = a.kind
        if k == 'var':
            a.z = z3.Int(a.args[0])
        elif k == 'app':
            args = a.args[1:]
            targs = [x for x in args if isinstance(x, (T, B, F))]
            name = a.args[0] + ''.join('|' + str(x) for x in args if not isinstance(x, (T, B, F)))
            if targs:
                a.z = _fn(name, _sig(targs), 'i')(*[tz(x) for x in targs])
            else:
                a.z = z3.Int(name + '/c')
        elif k == 'div':
            a.z = tz(a.args[0]) / a.args[1]
        elif k == 'mod':
            a.z = tz(a.args[0]) % a.args[1]
        elif k == 'mul':
            # products of unknowns are uninterpreted; lemma instances are added by the prover
            r = zatom(a.args[0])
            for f in a.args[1:]:
                r = _fn('mul', 'ii', 'i')(r, zatom(f))
            a.z = r
        elif k == 'ite':
            a.z = z3.If(tz(a.args[0]), tz(a.args[1]), tz(a.args[2]))
        else:
            raise TypeError(k)
    return a.z


def tz(x):
    if isinstance(x, T):
        if x.z is None:
            terms = [zatom(a) if k == 1 else k * zatom(a) for a, k in x.m]
            if x.c or not terms:
                terms.append(z3.IntVal(x.c))
            x.z = terms[0] if len(terms) == 1 else z3.Sum(terms)
        return x.z
    if isinstance(x, B):
        if x.z is None:
            k = x.k
            if k == 'true':
                x.z = z3.BoolVal(True)
            elif k == 'false':
                x.z = z3.BoolVal(False)
            elif k in ('le', 'eq', 'ne'):
                t = x.args[0]
                lhs = mk(0, t.m)
                if k == 'le':
                    x.z = tz(lhs) <= -t.c
                elif k == 'eq':
                    x.z = tz(lhs) == -t.c
                else:
                    x.z = tz(lhs) != -t.c
            elif k == 'and':
                x.z = z3.And(*[tz(b) for b in x.args])
            elif k == 'or':
                x.z = z3.Or(*[tz(b) for b in x.args])
            elif k == 'not':
                x.z = z3.Not(tz(x.args[0]))
            elif k == 'bapp':
                args = x.args[1]
                targs = [y for y in args if isinstance(y, (T, B, F))]
                name = x.args[0] + ''.join('|' + str(y) for y in args if not isinstance(y, (T, B, F)))
                if targs:
                    x.z = _fn(name, _sig(targs), 'b')(*[tz(y) for y in targs])
                else:
                    x.z = z3.Bool(name + '/b')
            elif k == 'feq':
                x.z = tz(x.args[0]) == tz(x.args[1])
        return x.z
    if isinstance(x, F):
        if x.z is None:
            if x.k == 'ite':
                x.z = z3.If(tz(x.args[0]), tz(x.args[1]), tz(x.args[2]))
            else:
                targs = [y for y in x.args if isinstance(y, (T, B, F))]
                name = x.k + ''.join('|' + repr(y) for y in x.args if not isinstance(y, (T, B, F)))
                if targs:
                    x.z = _fn(name, _sig(targs), 'v')(*[tz(y) for y in targs])
                else:
                    x.z = z3.Const(name + '/v', _val)
        return x.z
    raise TypeError(x)
