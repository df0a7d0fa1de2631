"""Hash-consed first-order terms with light normal forms.

Sorts: 'B' booleans, 'I' mathematical integers, 'R' mathematical reals.

Integers are kept in linear normal form, reals as sums of rational multiples of
products of powers of atoms.  Everything else (case splits, uninterpreted
applications, floor, Euclidean division) is an atom.
"""
from fractions import Fraction
import math

ZERO = Fraction(0)
ONE = Fraction(1)
INF = None


class T:
    __slots__ = ("op", "args", "sort", "id", "lo", "hi", "_z3", "_neg", "_rb", "_sz", "__weakref__")

    def __repr__(self):
        return show(self)


_table = {}
_count = [0]


def _mk(op, args, sort):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.sort = sort
        _count[0] += 1
        t.id = _count[0]
        t._z3 = None
        t._neg = None
        t._rb = None
        t._sz = None
        t.lo = t.hi = None
        _table[key] = t
        if sort == 'I':
            _bounds(t)
    return t


# --------------------------------------------------------------- booleans
TRUE = _mk('true', (), 'B')
FALSE = _mk('false', (), 'B')


def B(v):
    return TRUE if v else FALSE


def Not(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    n = a._neg
    if n is not None:
        return n
    if a.op == 'not':
        n = a.args[0]
    elif a.op == 'ile':      # not (l <= 0)  <=> 1 - l <= 0
        n = ile0(isub(ic(1), a.args[0]))
    elif a.op == 'rle':      # not (d <= 0) <=> -d < 0
        n = rlt0(rneg(a.args[0]))
    elif a.op == 'rlt':
        n = rle0(rneg(a.args[0]))
    else:
        n = _mk('not', (a,), 'B')
    a._neg = n
    if n._neg is None:
        n._neg = a
    return n


def And(*xs):
    out = []
    seen = set()
    st = list(reversed(xs))
    while st:
        x = st.pop()
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        if x.op == 'and':
            st.extend(reversed(x.args))
            continue
        if x.id in seen:
            continue
        if Not(x).id in seen:
            return FALSE
        seen.add(x.id)
        out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    # absorption: a and (not a or b) -> a and b
    for i, x in enumerate(out):
        if x.op == 'or':
            rest = []
            ch = False
            for y in x.args:
                if y.id in seen:
                    rest = None
                    break
                if Not(y).id in seen:
                    ch = True
                    continue
                rest.append(y)
            if rest is None:
                return And(*(out[:i] + out[i + 1:]))
            if ch:
                return And(*(out[:i] + [Or(*rest)] + out[i + 1:]))
    out.sort(key=lambda t: t.id)
    return _mk('and', tuple(out), 'B')


def Or(*xs):
    out = []
    seen = set()
    st = list(reversed(xs))
    while st:
        x = st.pop()
        if x is FALSE:
            continue
        if x is TRUE:
            return TRUE
        if x.op == 'or':
            st.extend(reversed(x.args))
            continue
        if x.id in seen:
            continue
        if Not(x).id in seen:
            return TRUE
        seen.add(x.id)
        out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    for i, x in enumerate(out):
        if x.op == 'and':
            rest = []
            ch = False
            for y in x.args:
                if y.id in seen:
                    rest = None
                    break
                if Not(y).id in seen:
                    ch = True
                    continue
                rest.append(y)
            if rest is None:
                return Or(*(out[:i] + out[i + 1:]))
            if ch:
                return Or(*(out[:i] + [And(*rest)] + out[i + 1:]))
    # common factor: (a & b) | (a & c) -> a & (b | c)
    if all(x.op == 'and' for x in out):
        common = set(t.id for t in out[0].args)
        for x in out[1:]:
            common &= set(t.id for t in x.args)
        if common:
            com = [t for t in out[0].args if t.id in common]
            rest = [And(*[t for t in x.args if t.id not in common]) for x in out]
            return And(*(com + [Or(*rest)]))
    out.sort(key=lambda t: t.id)
    return _mk('or', tuple(out), 'B')


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return Not(b)
    if b is FALSE:
        return Not(a)
    if Not(a) is b:
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return _mk('iff', (a, b), 'B')


def Xor(a, b):
    return Not(Iff(a, b))


def var(name, sort, lo=None, hi=None):
    t = _mk('var', (name,), sort)
    if sort == 'I':
        if lo is not None and (t.lo is None or lo > t.lo):
            t.lo = lo
        if hi is not None and (t.hi is None or hi < t.hi):
            t.hi = hi
    elif sort == 'R':
        if lo is not None or hi is not None:
            t._rb = (lo, hi)
    return t


_fresh = [0]


def fresh(prefix, sort, lo=None, hi=None):
    _fresh[0] += 1
    return var("%s!%d" % (prefix, _fresh[0]), sort, lo, hi)


# --------------------------------------------------------------- integers
def ic(n):
    return _mk('ic', (n,), 'I')


def isc(t):
    return t.op == 'ic'


def _lin(t):
    """-> (const, dict atom->coef)"""
    if t.op == 'ic':
        return t.args[0], ()
    if t.op == 'lin':
        return t.args[0], t.args[1]
    return 0, ((t, 1),)


def _mklin(c, d):
    items = [(a, k) for a, k in d.items() if k != 0]
    if not items:
        return ic(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda p: p[0].id)
    return _mk('lin', (c, tuple(items)), 'I')


def iadd(a, b):
    if a.op == 'ic':
        if b.op == 'ic':
            return ic(a.args[0] + b.args[0])
        if a.args[0] == 0:
            return b
    elif b.op == 'ic' and b.args[0] == 0:
        return a
    c1, l1 = _lin(a)
    c2, l2 = _lin(b)
    d = dict(l1)
    for x, k in l2:
        d[x] = d.get(x, 0) + k
    return _mklin(c1 + c2, d)


def iscale(a, k):
    if k == 0:
        return ic(0)
    if k == 1:
        return a
    c, l = _lin(a)
    if not l:
        return ic(c * k)
    return _mklin(c * k, {x: q * k for x, q in l})


def isub(a, b):
    if a is b:
        return ic(0)
    return iadd(a, iscale(b, -1))


def imul(a, b):
    if a.op == 'ic':
        return iscale(b, a.args[0])
    if b.op == 'ic':
        return iscale(a, b.args[0])
    # distribute over ite with constant leaves
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite' and isc(x.args[1]) and isc(x.args[2]):
            return Ite(x.args[0], imul(x.args[1], y), imul(x.args[2], y))
    if a.id > b.id:
        a, b = b, a
    return _mk('imul', (a, b), 'I')


def idiv(a, k):
    """floor division by a positive constant"""
    assert k > 0
    if k == 1:
        return a
    c, l = _lin(a)
    if not l:
        return ic(c // k)
    # pull out exact multiples
    out = {}
    rest = {}
    for x, q in l:
        if q % k == 0:
            out[x] = q // k
        else:
            rest[x] = q
    o = c // k
    r = c - o * k
    if not rest:
        return _mklin(o, out)
    rt = _mklin(r, rest)
    if rt.lo is not None and rt.hi is not None and rt.lo // k == rt.hi // k:
        return _mklin(o + rt.lo // k, out)
    if rt.op == 'ite':
        return iadd(_mklin(o, out), Ite(rt.args[0], idiv(rt.args[1], k), idiv(rt.args[2], k)))
    return iadd(_mklin(o, out), _mk('idiv', (rt, k), 'I'))


def imod(a, k):
    assert k > 0
    if k == 1:
        return ic(0)
    c, l = _lin(a)
    if not l:
        return ic(c % k)
    rest = {x: q % k for x, q in l if q % k}
    rt = _mklin(c % k, rest)
    if isc(rt):
        return ic(rt.args[0] % k)
    if a.lo is not None and a.hi is not None and 0 <= a.lo and a.hi < k:
        return a
    if rt.lo is not None and rt.hi is not None and 0 <= rt.lo and rt.hi < k:
        return rt
    if a.op == 'ite':
        return Ite(a.args[0], imod(a.args[1], k), imod(a.args[2], k))
    return _mk('imod', (rt, k), 'I')


def idivv(a, b):
    """floor division, symbolic divisor (meaningful for b > 0)"""
    if isc(b) and b.args[0] > 0:
        return idiv(a, b.args[0])
    if isc(a) and a.args[0] == 0:
        return ic(0)
    return _mk('idivv', (a, b), 'I')


def _bounds(t):
    op = t.op
    if op == 'ic':
        t.lo = t.hi = t.args[0]
    elif op == 'lin':
        lo = hi = t.args[0]
        for x, k in t.args[1]:
            a, b = (x.lo, x.hi) if k > 0 else (x.hi, x.lo)
            if lo is not None:
                lo = None if a is None else lo + k * a
            if hi is not None:
                hi = None if b is None else hi + k * b
        t.lo, t.hi = lo, hi
    elif op == 'ite':
        a, b = t.args[1], t.args[2]
        t.lo = None if a.lo is None or b.lo is None else min(a.lo, b.lo)
        t.hi = None if a.hi is None or b.hi is None else max(a.hi, b.hi)
    elif op == 'idiv':
        a, k = t.args
        t.lo = None if a.lo is None else a.lo // k
        t.hi = None if a.hi is None else a.hi // k
    elif op == 'imod':
        a, k = t.args
        t.lo, t.hi = 0, k - 1
    elif op == 'imul':
        a, b = t.args
        if None not in (a.lo, a.hi, b.lo, b.hi):
            c = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
            t.lo, t.hi = min(c), max(c)
        elif a.lo is not None and b.lo is not None and a.lo >= 0 and b.lo >= 0:
            t.lo = a.lo * b.lo
    elif op == 'idivv':
        a, b = t.args
        if a.lo is not None and a.lo >= 0 and b.lo is not None and b.lo >= 1:
            t.lo = 0
            if a.hi is not None:
                t.hi = a.hi // b.lo
    elif op == 'floor':
        lo, hi = rbounds(t.args[0])
        t.lo = None if lo is None else math.floor(lo)
        t.hi = None if hi is None else math.floor(hi)


def ile0(l):
    """l <= 0"""
    if l.op == 'ic':
        return B(l.args[0] <= 0)
    if l.hi is not None and l.hi <= 0:
        return TRUE
    if l.lo is not None and l.lo > 0:
        return FALSE
    if l.op == 'lin':
        c, it = l.args
        g = 0
        for _, k in it:
            g = math.gcd(g, k)
        if g > 1:
            # sum g*q*x <= -c  <=> sum q*x <= floor(-c/g)
            return ile0(_mklin(-((-c) // g), {x: k // g for x, k in it}))
        if len(it) == 1:
            x, k = it[0]
            if x.op == 'ite' and isc(x.args[1]) and isc(x.args[2]):
                return ite_b(x.args[0], B(c + k * x.args[1].args[0] <= 0), B(c + k * x.args[2].args[0] <= 0))
    elif l.op == 'ite':
        if isc(l.args[1]) or isc(l.args[2]):
            return ite_b(l.args[0], ile0(l.args[1]), ile0(l.args[2]))
    return _mk('ile', (l,), 'B')


def ile(a, b):
    return ile0(isub(a, b))


def ilt(a, b):
    return ile0(iadd(isub(a, b), ic(1)))


def ieq(a, b):
    if a is b:
        return TRUE
    d = isub(a, b)
    if d.op == 'ic':
        return B(d.args[0] == 0)
    if (d.lo is not None and d.lo > 0) or (d.hi is not None and d.hi < 0):
        return FALSE
    c, it = _lin(d)
    g = 0
    for _, k in it:
        g = math.gcd(g, k)
    if c % g:
        return FALSE
    if it[0][1] < 0:
        g = -g
    if g != 1:
        d = _mklin(c // g, {x: k // g for x, k in it})
        c, it = _lin(d)
    if len(it) == 1 and it[0][1] == 1:
        x = it[0][0]
        if x.op == 'ite' and (isc(x.args[1]) or isc(x.args[2])):
            return ite_b(x.args[0], ieq(x.args[1], ic(-c)), ieq(x.args[2], ic(-c)))
    if d.op == 'ite' and (isc(d.args[1]) or isc(d.args[2])):
        return ite_b(d.args[0], ieq(d.args[1], ic(0)), ieq(d.args[2], ic(0)))
    return _mk('ieq', (d,), 'B')


def ite_b(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a is TRUE:
        return Or(c, b)
    if a is FALSE:
        return And(Not(c), b)
    if b is TRUE:
        return Or(Not(c), a)
    if b is FALSE:
        return And(c, a)
    if Not(a) is b:
        return Iff(c, a)
    return Or(And(c, a), And(Not(c), b))


def Ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    s = a.sort
    if s == 'B':
        return ite_b(c, a, b)
    if c.op == 'not':
        c, a, b = c.args[0], b, a
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if b.op == 'ite' and b.args[1] is a:   # ite(c,a,ite(d,a,e))
        return Ite(Or(c, b.args[0]), a, b.args[2])
    if b.op == 'ite' and b.args[2] is a:
        return Ite(And(Not(c), b.args[0]), b.args[1], a)
    if a.op == 'ite' and a.args[2] is b:
        return Ite(And(c, a.args[0]), a.args[1], b)
    if a.op == 'ite' and a.args[1] is b:
        return Ite(And(c, Not(a.args[0])), a.args[2], b)
    if s == 'I':
        if not (a.op == 'ic' and b.op == 'ic'):
            c1, l1 = _lin(a)
            c2, l2 = _lin(b)
            d1 = dict(l1)
            com = {}
            for x, k in l2:
                if d1.get(x) == k:
                    com[x] = k
            if com:
                ra = _mklin(c1, {x: k for x, k in l1 if x not in com})
                rb = _mklin(c2, {x: k for x, k in l2 if x not in com})
                return iadd(_mklin(0, com), Ite(c, ra, rb))
        return _mk('ite', (c, a, b), 'I')
    # reals
    if a.op == 'rsum' or b.op == 'rsum':
        c1, l1 = _sum(a)
        c2, l2 = _sum(b)
        d1 = dict(l1)
        com = {}
        for x, k in l2:
            if d1.get(x) == k:
                com[x] = k
        if com:
            ra = _mksum(c1, {x: k for x, k in l1 if x not in com})
            rb = _mksum(c2, {x: k for x, k in l2 if x not in com})
            return radd(_mksum(ZERO, com), Ite(c, ra, rb))
    return _mk('ite', (c, a, b), 'R')


# --------------------------------------------------------------- reals
def rc(q):
    if not isinstance(q, Fraction):
        q = Fraction(q)
    return _mk('rc', (q,), 'R')


R0 = rc(0)
R1 = rc(1)


def isrc(t):
    return t.op == 'rc'


def _sum(t):
    if t.op == 'rc':
        return t.args[0], ()
    if t.op == 'rsum':
        return t.args[0], t.args[1]
    return ZERO, ((t, ONE),)


def _mksum(c, d):
    items = [(a, k) for a, k in d.items() if k]
    if not items:
        return rc(c)
    if not c and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda p: p[0].id)
    return _mk('rsum', (c, tuple(items)), 'R')


def radd(a, b):
    if a.op == 'rc':
        if b.op == 'rc':
            return rc(a.args[0] + b.args[0])
        if not a.args[0]:
            return b
    elif b.op == 'rc' and not b.args[0]:
        return a
    c1, l1 = _sum(a)
    c2, l2 = _sum(b)
    d = dict(l1)
    for x, k in l2:
        v = d.get(x)
        d[x] = k if v is None else v + k
    return _mksum(c1 + c2, d)


def rscale(a, q):
    if not q:
        return R0
    if q == 1:
        return a
    c, l = _sum(a)
    if not l:
        return rc(c * q)
    return _mksum(c * q, {x: k * q for x, k in l})


def rneg(a):
    return rscale(a, Fraction(-1))


def rsub(a, b):
    if a is b:
        return R0
    return radd(a, rneg(b))


def _prod(t):
    """t must not be a constant; -> (coef, ((atom, exp),...))"""
    if t.op == 'rprod':
        return ONE, t.args
    if t.op == 'rsum':
        if not t.args[0] and len(t.args[1]) == 1:
            x, k = t.args[1][0]
            return k, (x.args if x.op == 'rprod' else ((x, 1),))
        # factor out the leading coefficient so that scaled sums are shared
        lead = t.args[1][0][1]
        if lead != 1:
            return lead, ((rscale(t, 1 / lead), 1),)
        return ONE, ((t, 1),)
    return ONE, ((t, 1),)


def _mkprod(d):
    items = [(a, e) for a, e in d.items() if e]
    if not items:
        return R1
    if len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda p: p[0].id)
    return _mk('rprod', tuple(items), 'R')


def rmul(a, b):
    if a.op == 'rc':
        return rscale(b, a.args[0])
    if b.op == 'rc':
        return rscale(a, b.args[0])
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite' and (isrc(x.args[1]) or isrc(x.args[2])):
            if isrc(x.args[1]) and isrc(x.args[2]) or R0 in (x.args[1], x.args[2]):
                return Ite(x.args[0], rmul(x.args[1], y), rmul(x.args[2], y))
    k1, p1 = _prod(a)
    k2, p2 = _prod(b)
    d = dict(p1)
    for x, e in p2:
        d[x] = d.get(x, 0) + e
    return rscale(_mkprod(d), k1 * k2)


def rinv(a):
    if a.op == 'rc':
        if not a.args[0]:
            return app('inv0', (), 'R')
        return rc(1 / a.args[0])
    if a.op == 'ite' and isrc(a.args[1]) and isrc(a.args[2]):
        return Ite(a.args[0], rinv(a.args[1]), rinv(a.args[2]))
    k, p = _prod(a)
    return rscale(_mkprod({x: -e for x, e in p}), 1 / k)


def rdiv(a, b):
    return rmul(a, rinv(b))


def toreal(i):
    if i.op == 'ic':
        return rc(i.args[0])
    if i.op == 'lin':
        c, it = i.args
        r = rc(c)
        for x, k in it:
            r = radd(r, rscale(toreal(x), Fraction(k)))
        return r
    if i.op == 'ite':
        return Ite(i.args[0], toreal(i.args[1]), toreal(i.args[2]))
    return _mk('toreal', (i,), 'R')


def floor(r):
    """floor of a real, as an integer term"""
    if r.op == 'rc':
        return ic(math.floor(r.args[0]))
    if r.op == 'toreal':
        return r.args[0]
    c, it = _sum(r)
    # pull integer-valued parts out
    out = ic(0)
    rest = {}
    for x, k in it:
        if x.op == 'toreal' and k.denominator == 1:
            out = iadd(out, iscale(x.args[0], k.numerator))
        else:
            rest[x] = k
    fl = math.floor(c)
    out = iadd(out, ic(fl))
    rt = _mksum(c - fl, rest)
    if rt.op == 'rc':
        return iadd(out, ic(math.floor(rt.args[0])))
    if rt.op == 'ite':
        return iadd(out, Ite(rt.args[0], floor(rt.args[1]), floor(rt.args[2])))
    lo, hi = rbounds(rt)
    if lo is not None and hi is not None and math.floor(lo) == math.floor(hi):
        return iadd(out, ic(math.floor(lo)))
    return iadd(out, _mk('floor', (rt,), 'I'))


def app(name, args, sort, lo=None, hi=None):
    t = _mk('app', (name,) + tuple(args), sort)
    if sort == 'I':
        if lo is not None and (t.lo is None or lo > t.lo):
            t.lo = lo
        if hi is not None and (t.hi is None or hi < t.hi):
            t.hi = hi
    elif lo is not None or hi is not None:
        t._rb = (lo, hi)
    return t


_RB_BIG = Fraction(10) ** 60


def rbounds(t):
    """interval (lo, hi) as rationals, None = unbounded"""
    b = t._rb
    if b is not None:
        return b
    b = _rb(t)
    t._rb = b
    return b


def _imul(a, b):
    alo, ahi = a
    blo, bhi = b
    if None in (alo, ahi, blo, bhi):
        # sign-only information
        if alo is not None and alo >= 0 and blo is not None and blo >= 0:
            return (alo * blo, None if ahi is None or bhi is None else ahi * bhi)
        return (None, None)
    c = (alo * blo, alo * bhi, ahi * blo, ahi * bhi)
    return (min(c), max(c))


def _ipow(a, e):
    lo, hi = a
    if e == 1:
        return a
    if e < 0:
        p = _ipow(a, -e)
        if p[0] is not None and p[0] > 0:
            return (ZERO if p[1] is None else 1 / p[1], 1 / p[0])
        if p[1] is not None and p[1] < 0:
            return (1 / p[1], ZERO if p[0] is None else 1 / p[0])
        return (None, None)
    if e % 2 == 0:
        if lo is None or hi is None:
            if lo is not None and lo >= 0:
                return (lo ** e, None)
            return (ZERO, None)
        m = max(abs(lo), abs(hi)) ** e
        n = ZERO if lo <= 0 <= hi else min(abs(lo), abs(hi)) ** e
        return (n, m)
    return (None if lo is None else lo ** e, None if hi is None else hi ** e)


def _rb(t):
    op = t.op
    if op == 'rc':
        return (t.args[0], t.args[0])
    if op == 'rsum':
        lo = hi = t.args[0]
        for x, k in t.args[1]:
            a, b = rbounds(x)
            if k < 0:
                a, b = b, a
            lo = None if lo is None or a is None else lo + k * a
            hi = None if hi is None or b is None else hi + k * b
        return (lo, hi)
    if op == 'rprod':
        r = (ONE, ONE)
        for x, e in t.args:
            r = _imul(r, _ipow(rbounds(x), e))
        return r
    if op == 'ite':
        a, b = rbounds(t.args[1]), rbounds(t.args[2])
        return (None if a[0] is None or b[0] is None else min(a[0], b[0]),
                None if a[1] is None or b[1] is None else max(a[1], b[1]))
    if op == 'toreal':
        i = t.args[0]
        return (None if i.lo is None else Fraction(i.lo), None if i.hi is None else Fraction(i.hi))
    return (None, None)


def _rnorm(d):
    """scale by a positive rational so that the leading coefficient is +-1"""
    c, it = _sum(d)
    if not it:
        return d
    k = abs(it[0][1])
    return d if k == 1 else rscale(d, 1 / k)


def rle0(d):
    if d.op == 'rc':
        return B(d.args[0] <= 0)
    lo, hi = rbounds(d)
    if hi is not None and hi <= 0:
        return TRUE
    if lo is not None and lo > 0:
        return FALSE
    if d.op == 'ite' and (isrc(d.args[1]) or isrc(d.args[2])):
        return ite_b(d.args[0], rle0(d.args[1]), rle0(d.args[2]))
    i = _rint(d)
    if i is not None:
        return ile0(i)
    return _mk('rle', (_rnorm(d),), 'B')


def rlt0(d):
    if d.op == 'rc':
        return B(d.args[0] < 0)
    lo, hi = rbounds(d)
    if hi is not None and hi < 0:
        return TRUE
    if lo is not None and lo >= 0:
        return FALSE
    if d.op == 'ite' and (isrc(d.args[1]) or isrc(d.args[2])):
        return ite_b(d.args[0], rlt0(d.args[1]), rlt0(d.args[2]))
    i = _rint(d)
    if i is not None:
        return ile0(iadd(i, ic(1)))
    return _mk('rlt', (_rnorm(d),), 'B')


def _rint(d):
    """if d is (a positive rational multiple of) an integer combination of
    integer terms, return that integer term"""
    c, it = _sum(d)
    den = c.denominator
    for x, k in it:
        if x.op != 'toreal':
            return None
        den = den * k.denominator // math.gcd(den, k.denominator)
    r = ic(int(c * den))
    for x, k in it:
        r = iadd(r, iscale(x.args[0], int(k * den)))
    return r


def req0(d):
    if d.op == 'rc':
        return B(d.args[0] == 0)
    lo, hi = rbounds(d)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return FALSE
    i = _rint(d)
    if i is not None:
        return ieq(i, ic(0))
    if d.op == 'ite' and (isrc(d.args[1]) or isrc(d.args[2])):
        return ite_b(d.args[0], req0(d.args[1]), req0(d.args[2]))
    c, it = _sum(d)
    k = it[0][1]
    if k != 1:
        d = rscale(d, 1 / k)
    return _mk('req', (d,), 'B')


def rle(a, b):
    return rle0(rsub(a, b))


def rlt(a, b):
    return rlt0(rsub(a, b))


def req(a, b):
    if a is b:
        return TRUE
    return req0(rsub(a, b))


def rabs(a):
    lo, hi = rbounds(a)
    if lo is not None and lo >= 0:
        return a
    if hi is not None and hi <= 0:
        return rneg(a)
    return Ite(rle0(rneg(a)), a, rneg(a))


# --------------------------------------------------------------- traversal
def children(t):
    op = t.op
    if op in ('var', 'ic', 'rc', 'true', 'false'):
        return ()
    if op == 'lin' or op == 'rsum':
        return tuple(x for x, _ in t.args[1])
    if op == 'rprod':
        return tuple(x for x, _ in t.args)
    if op in ('idiv', 'imod'):
        return (t.args[0],)
    if op == 'app':
        return tuple(a for a in t.args[1:] if isinstance(a, T))
    return t.args


def rebuild(t, f):
    """rebuild t with children mapped by f"""
    op = t.op
    if op in ('var', 'ic', 'rc', 'true', 'false'):
        return t
    if op == 'lin':
        r = ic(t.args[0])
        for x, k in t.args[1]:
            r = iadd(r, iscale(f(x), k))
        return r
    if op == 'rsum':
        r = rc(t.args[0])
        for x, k in t.args[1]:
            r = radd(r, rscale(f(x), k))
        return r
    if op == 'rprod':
        r = R1
        for x, e in t.args:
            y = f(x)
            if e < 0:
                y = rinv(y)
            for _ in range(abs(e)):
                r = rmul(r, y)
        return r
    if op == 'idiv':
        return idiv(f(t.args[0]), t.args[1])
    if op == 'imod':
        return imod(f(t.args[0]), t.args[1])
    if op == 'imul':
        return imul(f(t.args[0]), f(t.args[1]))
    if op == 'idivv':
        return idivv(f(t.args[0]), f(t.args[1]))
    if op == 'toreal':
        return toreal(f(t.args[0]))
    if op == 'floor':
        return floor(f(t.args[0]))
    if op == 'app':
        lo, hi = (t.lo, t.hi) if t.sort == 'I' else (t._rb or (None, None))
        return app(t.args[0], tuple(f(a) if isinstance(a, T) else a for a in t.args[1:]), t.sort, lo, hi)
    if op == 'ite':
        return Ite(f(t.args[0]), f(t.args[1]), f(t.args[2]))
    if op == 'and':
        return And(*[f(a) for a in t.args])
    if op == 'or':
        return Or(*[f(a) for a in t.args])
    if op == 'not':
        return Not(f(t.args[0]))
    if op == 'iff':
        return Iff(f(t.args[0]), f(t.args[1]))
    if op == 'ile':
        return ile0(f(t.args[0]))
    if op == 'ieq':
        return ieq(f(t.args[0]), ic(0))
    if op == 'rle':
        return rle0(f(t.args[0]))
    if op == 'rlt':
        return rlt0(f(t.args[0]))
    if op == 'req':
        return req0(f(t.args[0]))
    raise ValueError(op)


def subst(t, m, memo=None):
    """m: dict term -> term"""
    if memo is None:
        memo = {}
    st = [t]
    while st:
        x = st[-1]
        if x.id in memo:
            st.pop()
            continue
        y = m.get(x)
        if y is not None:
            memo[x.id] = y
            st.pop()
            continue
        todo = [c for c in children(x) if c.id not in memo]
        if todo:
            st.extend(todo)
            continue
        memo[x.id] = rebuild(x, lambda c: memo[c.id])
        st.pop()
    return memo[t.id]


def atoms(ts):
    """all subterms of the given terms, children first"""
    seen = set()
    out = []
    st = [(t, False) for t in ts]
    while st:
        t, done = st.pop()
        if done:
            out.append(t)
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        st.append((t, True))
        for c in children(t):
            if c.id not in seen:
                st.append((c, False))
    return out


# --------------------------------------------------------------- printing
def _fr(q):
    if q.denominator == 1:
        return str(q.numerator)
    return "%.17g" % float(q)


def show(t, depth=12):
    if depth == 0:
        return "…"
    op = t.op
    d = depth - 1
    if op == 'var':
        return str(t.args[0])
    if op == 'ic':
        return str(t.args[0])
    if op == 'rc':
        return _fr(t.args[0])
    if op == 'true' or op == 'false':
        return op
    if op == 'lin' or op == 'rsum':
        s = []
        c = t.args[0]
        for x, k in t.args[1]:
            s.append(("" if k == 1 else (_fr(Fraction(k)) + "*")) + show(x, d))
        if c:
            s.append(_fr(Fraction(c)))
        return "(" + " + ".join(s) + ")"
    if op == 'rprod':
        return "*".join(show(x, d) + ("" if e == 1 else "^%d" % e) for x, e in t.args)
    if op == 'app':
        return "%s(%s)" % (t.args[0], ", ".join(show(a, d) if isinstance(a, T) else str(a) for a in t.args[1:]))
    nm = {'ile': '<=0', 'ieq': '=0', 'rle': '<=0', 'rlt': '<0', 'req': '=0'}
    if op in nm:
        return "(%s %s)" % (show(t.args[0], d), nm[op])
    return "%s(%s)" % (op, ", ".join(show(a, d) if isinstance(a, T) else str(a) for a in t.args))
