"""Back ends: z3 (in process), cvc5 (process), and an exact ring normaliser."""
from fractions import Fraction
import math
import os
import subprocess
import tempfile
import time
import z3

from . import terms as tm
from .terms import (T, TRUE, FALSE, Not, And, Or, Ite, children, atoms, rbounds)

STATS = {'queries': 0, 'time': 0.0, 'feas': 0, 'feas_time': 0.0}
_funcs = {}
_vars = {}
_abs = {}


def _sortz(s):
    return {'B': z3.BoolSort(), 'I': z3.IntSort(), 'R': z3.RealSort()}[s]


def toz3(t, memo, uf):
    """memo: id -> z3 expr; uf: keep applications as functions"""
    st = [t]
    while st:
        x = st[-1]
        if x.id in memo:
            st.pop()
            continue
        todo = [c for c in children(x) if c.id not in memo]
        if todo:
            st.extend(todo)
            continue
        st.pop()
        g = lambda c: memo[c.id]
        op = x.op
        a = x.args
        if op == 'var':
            e = z3.Const(a[0], _sortz(x.sort))
        elif op == 'true':
            e = z3.BoolVal(True)
        elif op == 'false':
            e = z3.BoolVal(False)
        elif op == 'ic':
            e = z3.IntVal(a[0])
        elif op == 'rc':
            e = z3.RealVal(a[0])
        elif op == 'lin':
            ps = [g(y) if k == 1 else z3.IntVal(k) * g(y) for y, k in a[1]]
            if a[0]:
                ps.append(z3.IntVal(a[0]))
            e = z3.Sum(ps) if len(ps) > 1 else ps[0]
        elif op == 'rsum':
            ps = [g(y) if k == 1 else z3.RealVal(k) * g(y) for y, k in a[1]]
            if a[0]:
                ps.append(z3.RealVal(a[0]))
            e = z3.Sum(ps) if len(ps) > 1 else ps[0]
        elif op == 'rprod':
            num, den = [], []
            for y, k in a:
                (num if k > 0 else den).extend([g(y)] * abs(k))
            n = z3.Product(num) if len(num) > 1 else (num[0] if num else z3.RealVal(1))
            if den:
                d = z3.Product(den) if len(den) > 1 else den[0]
                e = n / d
            else:
                e = n
        elif op == 'imul':
            e = g(a[0]) * g(a[1])
        elif op == 'idiv':
            e = g(a[0]) / z3.IntVal(a[1])
        elif op == 'imod':
            e = g(a[0]) % z3.IntVal(a[1])
        elif op == 'idivv':
            e = g(a[0]) / g(a[1])
        elif op == 'toreal':
            e = z3.ToReal(g(a[0]))
        elif op == 'floor':
            e = z3.ToInt(g(a[0]))
        elif op == 'ite':
            e = z3.If(g(a[0]), g(a[1]), g(a[2]))
        elif op == 'and':
            e = z3.And([g(y) for y in a])
        elif op == 'or':
            e = z3.Or([g(y) for y in a])
        elif op == 'not':
            e = z3.Not(g(a[0]))
        elif op == 'iff':
            e = g(a[0]) == g(a[1])
        elif op == 'ile':
            e = g(a[0]) <= 0
        elif op == 'ieq':
            e = g(a[0]) == 0
        elif op == 'rle':
            e = g(a[0]) <= 0
        elif op == 'rlt':
            e = g(a[0]) < 0
        elif op == 'req':
            e = g(a[0]) == 0
        elif op == 'app':
            fa = [y for y in a[1:] if isinstance(y, T)]
            if not uf or not fa:
                nm = _abs.get(x.id)
                if nm is None:
                    nm = _abs[x.id] = "ap!%s!%d" % (a[0], x.id)
                e = z3.Const(nm, _sortz(x.sort))
            else:
                key = (a[0], tuple(y.sort for y in fa), x.sort)
                f = _funcs.get(key)
                if f is None:
                    f = _funcs[key] = z3.Function("f!" + a[0] + "!" + "".join(key[1]), *([_sortz(y.sort) for y in fa] + [_sortz(x.sort)]))
                e = f(*[g(y) for y in fa])
        else:
            raise ValueError(op)
        memo[x.id] = e
    return memo[t.id]


_memo = {True: {}, False: {}}


def side_constraints(ts):
    """range facts of the variables/applications occurring in ts"""
    out = []
    trig = {}
    for x in atoms(ts):
        if x.op == 'var' or x.op == 'app':
            if x.sort == 'I':
                if x.lo is not None:
                    out.append(('ge', x, x.lo))
                if x.hi is not None:
                    out.append(('le', x, x.hi))
            elif x.sort == 'R':
                lo, hi = rbounds(x)
                if lo is not None:
                    out.append(('ge', x, lo))
                if hi is not None:
                    out.append(('le', x, hi))
            if x.op == 'app' and x.args[0] in ('sin', 'cos'):
                trig.setdefault(x.args[1].id, {})[x.args[0]] = x
            if x.op == 'app' and x.args[0] == 'sqrt':
                out.append(('sqrt', x, x.args[1]))
    for d in trig.values():
        if len(d) == 2:
            out.append(('pyth', d['sin'], d['cos']))
    return out


def to_solver(s, ts, uf, extra=True):
    memo = _memo[uf]
    for t in ts:
        s.add(toz3(t, memo, uf))
    if extra:
        for k, x, y in side_constraints(ts):
            if k == 'ge':
                s.add(toz3(x, memo, uf) >= (z3.IntVal(y) if x.sort == 'I' else z3.RealVal(y)))
            elif k == 'le':
                s.add(toz3(x, memo, uf) <= (z3.IntVal(y) if x.sort == 'I' else z3.RealVal(y)))
            elif k == 'sqrt':
                e = toz3(x, memo, uf)
                a = toz3(y, memo, uf)
                s.add(z3.Implies(a >= 0, z3.And(e >= 0, e * e == a)))
            elif k == 'pyth':
                a, b = toz3(x, memo, uf), toz3(y, memo, uf)
                s.add(a * a + b * b == 1)


_varsets = {}


def varset(t):
    v = _varsets.get(t.id)
    if v is None:
        v = frozenset(x.id for x in atoms([t]) if x.op == 'var' or (x.op == 'app'))
        _varsets[t.id] = v
    return v


def slice_pc(pc, seeds):
    """conjuncts of pc sharing symbols (transitively) with the seeds"""
    want = set()
    for s in seeds:
        want |= varset(s)
    rest = [(c, varset(c)) for c in pc]
    out = []
    ch = True
    while ch:
        ch = False
        nr = []
        for c, v in rest:
            if v & want:
                out.append(c)
                want |= v
                ch = True
            else:
                nr.append((c, v))
        rest = nr
    return out


_lit = {}


def literal_range(x):
    """x as a bound on a linear combination: (key, lower?, value, strict)"""
    r = _lit.get(x.id, 0)
    if r != 0:
        return r
    r = None
    y, neg = x, False
    if y.op == 'not':
        y, neg = y.args[0], True
    if y.op in ('rle', 'rlt', 'ile'):
        d = y.args[0]
        c, it = tm._lin(d) if y.op == 'ile' else tm._sum(d)
        if it:
            k = it[0][1]
            key = (y.op == 'ile',) + tuple((t.id, Fraction(q) / k) for t, q in it)
            v = -Fraction(c) / k          # comb (<=|>=) v
            lower = k < 0
            strict = y.op == 'rlt'
            if neg:
                lower, strict = not lower, not strict
                if y.op == 'ile':
                    # not (d <= 0)  <=>  d > 0
                    strict = True
            r = (key, lower, v, strict)
    _lit[x.id] = r
    return r


def quick(pc, cond):
    """True: cond may hold, False: contradicts pc, None: unknown"""
    r = literal_range(cond)
    if r is None:
        return None
    key, lower, v, strict = r
    for c in pc:
        q = literal_range(c)
        if q is None or q[0] != key:
            continue
        if q[1] == lower:
            if lower and (q[2] > v or (q[2] == v and (q[3] or not strict))):
                return True
            if not lower and (q[2] < v or (q[2] == v and (q[3] or not strict))):
                return True
        else:
            lo, hi = (v, q[2]) if lower else (q[2], v)
            if lo > hi or (lo == hi and (strict or q[3])):
                return False
    return None


_feas_cache = {}


def feasible(pc, cond, timeout=400):
    """False only if pc and cond is unsatisfiable."""
    if cond is FALSE:
        return False
    if cond is TRUE:
        return True
    q = quick(pc, cond)
    if q is not None:
        return q
    sl = slice_pc(pc, [cond])
    key = (frozenset(c.id for c in sl), cond.id)
    r = _feas_cache.get(key)
    if r is not None:
        return r
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', timeout)
    to_solver(s, sl + [cond], False)
    res = s.check()
    STATS['feas'] += 1
    STATS['feas_time'] += time.time() - t0
    r = res != z3.unsat
    _feas_cache[key] = r
    return r


def entails_quick(pc, goal, timeout=400):
    if goal is TRUE:
        return True
    return not feasible(pc, Not(goal), timeout)


# ------------------------------------------------------------ ring normaliser
class TooBig(Exception):
    pass


_LIMIT = 60000


def _sig(q, digits=13):
    """round a rational to `digits` significant digits (argument keys only)"""
    if not q:
        return Fraction(0)
    return Fraction("%.*e" % (digits - 1, float(q)))


class Ring:
    """Polynomials over atoms with negative powers; trig squares reduced.

    A polynomial is a dict: monomial -> Fraction, a monomial a sorted tuple of
    (atom key, exponent)."""

    def __init__(self):
        self.memo = {}
        self.atom = {}   # key -> term or description
        self.bound = {}  # key -> (lo, hi)
        self.nice = {}

    def const(self, q):
        return {(): q} if q else {}

    def add(self, p, q, k=Fraction(1)):
        r = dict(p)
        for m, c in q.items():
            v = r.get(m)
            if v is None:
                r[m] = c * k
            else:
                v = v + c * k
                if v:
                    r[m] = v
                else:
                    del r[m]
        return r

    def mul(self, p, q):
        if len(p) * len(q) > _LIMIT:
            raise TooBig()
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = self.mmul(m1, m2)
                for mm, cc in self.reduce(m).items():
                    v = r.get(mm, 0) + cc * c1 * c2
                    if v:
                        r[mm] = v
                    elif mm in r:
                        del r[mm]
        return r

    def mmul(self, a, b):
        d = dict(a)
        for x, e in b:
            d[x] = d.get(x, 0) + e
        return tuple(sorted((x, e) for x, e in d.items() if e))

    def reduce(self, m):
        """cos(x)^2 -> 1 - sin(x)^2"""
        for i, (k, e) in enumerate(m):
            if k[0] == 'cos' and e >= 2:
                rest = m[:i] + m[i + 1:]
                base = self.mmul(rest, ((k, e - 2),) if e > 2 else ())
                s = ('sin',) + k[1:]
                if s not in self.bound:
                    self.bound[s] = (Fraction(-1), Fraction(1))
                    self.atom[s] = None
                r = dict(self.reduce(base))
                r2 = self.reduce(self.mmul(base, ((s, 2),)))
                return self.add(r, r2, Fraction(-1))
            if k[0] == 'sqrt' and e >= 2:
                # sqrt(x)^2 -> x  (x >= 0 is a side condition of sqrt)
                rest = m[:i] + m[i + 1:]
                base = self.mmul(rest, ((k, e - 2),) if e > 2 else ())
                r = {}
                for m2, c2 in self.sqarg[k].items():
                    for mm, cc in self.reduce(self.mmul(base, m2)).items():
                        r[mm] = r.get(mm, 0) + cc * c2
                return {a: b for a, b in r.items() if b}
        return {m: Fraction(1)}

    sqarg = {}

    def key(self, p):
        return tuple(sorted((m, _sig(c)) for m, c in p.items() if abs(c) > Fraction(1, 10 ** 25)))

    def of(self, t):
        r = self.memo.get(t.id)
        if r is not None:
            return r
        r = self._of(t)
        self.memo[t.id] = r
        return r

    def atomk(self, k, t, b):
        if k not in self.atom:
            self.atom[k] = t
            self.bound[k] = b
        return {((k, 1),): Fraction(1)}

    def _of(self, t):
        op = t.op
        if op == 'rc':
            return self.const(t.args[0])
        if op == 'rsum':
            r = self.const(t.args[0])
            for x, k in t.args[1]:
                r = self.add(r, self.of(x), k)
            return r
        if op == 'rprod':
            r = {(): Fraction(1)}
            for x, e in t.args:
                p = self.of(x)
                if e < 0:
                    p = self.inv(p, x)
                for _ in range(abs(e)):
                    r = self.mul(r, p)
            return r
        if op == 'toreal':
            i = t.args[0]
            if i.op == 'imul':
                return self.mul(self.of(tm.toreal(i.args[0])), self.of(tm.toreal(i.args[1])))
            if i.op == 'floor':
                # floor(integer part + rest) = integer part + floor(rest)
                ip, rest = {}, {}
                for m, c in self.of(i.args[0]).items():
                    if c.denominator == 1 and all(k[0] in ('i', 'floor') and e > 0 for k, e in m):
                        ip[m] = c
                    else:
                        rest[m] = c
                if not rest:
                    return ip
                if len(rest) == 1 and () in rest:
                    return self.add(ip, self.const(Fraction(math.floor(rest[()]))))
                c0 = rest.get((), Fraction(0))
                mb = self.maxabs({m: c for m, c in rest.items() if m})
                if mb is not None and math.floor(c0 - mb) == math.floor(c0 + mb):
                    return self.add(ip, self.const(Fraction(math.floor(c0))))
                f = math.floor(c0)
                if f:
                    rest[()] -= f
                    ip = self.add(ip, self.const(Fraction(f)))
                k = ('floor', self.key(rest))
                if ip:
                    mb = self.maxabs(rest)
                    b = (None, None) if mb is None else (-mb - 1, mb + 1)
                else:
                    b = rbounds(t)
                return self.add(ip, self.atomk(k, t, b))
            return self.atomk(('i', i.id), t, rbounds(t))
        if op == 'app' and t.args[0] in ('sin', 'cos', 'tan', 'sqrt', 'atan', 'acos', 'asin', 'atan2', 'pow', 'exp', 'log', 'abs'):
            ks = []
            ps = []
            for a in t.args[1:]:
                p = self.of(a)
                ps.append(p)
                ks.append(self.key(p))
            nm = t.args[0]
            sgn = Fraction(1)
            if nm in ('sin', 'cos', 'tan', 'atan', 'asin') and ks[0]:
                # odd/even symmetry: canonical sign of the leading coefficient
                if ks[0][-1][1] < 0:
                    ks[0] = tuple((m, -c) for m, c in ks[0])
                    if nm != 'cos':
                        sgn = Fraction(-1)
            k = (nm,) + tuple(ks)
            if nm == 'sqrt':
                self.sqarg[k] = ps[0]
            r = self.atomk(k, t, rbounds(t))
            return {m: c * sgn for m, c in r.items()}
        if op == 'ite':
            raise NeedSplit(t.args[0])
        return self.atomk(('t', t.id), t, rbounds(t))

    def inv(self, p, t):
        if len(p) == 1:
            (m, c), = p.items()
            return {tuple((k, -e) for k, e in m): 1 / c}
        # opaque inverse of a normalised polynomial
        k = self.key(p)
        lead = k[0][1]
        kn = tuple((m, _sig(c / lead)) for m, c in k)
        b = rbounds(t)
        b = tm._ipow(b, -1)
        kk = ('inv', kn)
        if lead != 0:
            b = tuple(sorted([None if x is None else x * lead for x in b], key=lambda v: (v is None, v))) if None not in b else (None, None)
        r = self.atomk(kk, t, b)
        return {m: c / lead for m, c in r.items()}

    def maxabs(self, p):
        """upper bound of |p| from atom ranges, or None"""
        tot = Fraction(0)
        for m, c in p.items():
            b = (Fraction(1), Fraction(1))
            for k, e in m:
                b = tm._imul(b, tm._ipow(self.bound[k], e))
            if None in b:
                if abs(c) > 0:
                    return None
                continue
            tot += abs(c) * max(abs(b[0]), abs(b[1]))
        return tot


class NeedSplit(Exception):
    def __init__(self, c):
        self.c = c


def find_ite(ts):
    for x in atoms(ts):
        if x.op == 'ite':
            return x.args[0]
    return None


def assume_subst(c, val):
    """substitution map for assuming literal c == val"""
    m = {}
    st = [(c, val)]
    while st:
        x, v = st.pop()
        m[x] = TRUE if v else FALSE
        n = Not(x)
        m[n] = FALSE if v else TRUE
        if x.op == 'and' and v:
            st.extend((y, True) for y in x.args)
        if x.op == 'or' and not v:
            st.extend((y, False) for y in x.args)
        if x.op == 'not':
            if m.get(x.args[0]) is None:
                st.append((x.args[0], not v))
    return m


def ring_close(pc, a, b, tol, deadline, depth=0, budget=None):
    """Is |a - b| <= tol under pc, by splitting on conditions and exact ring
    normalisation?  -> True / False / (refuting condition list)"""
    if budget is None:
        budget = [400]
    d = tm.rsub(a, b)
    if d.op == 'rc':
        return abs(d.args[0]) <= tol
    if time.time() > deadline:
        return False
    R = Ring()
    try:
        p = R.of(d)
    except NeedSplit as e:
        budget[0] -= 1
        if budget[0] < 0 or depth > 60:
            return False
        c = pick_split(d) or e.c
        ok = True
        for v in (True, False):
            lit = c if v else Not(c)
            if not feasible(pc, lit):
                continue
            m = assume_subst(c, v)
            memo = {}
            a2 = tm.subst(a, m, memo)
            b2 = tm.subst(b, m, memo)
            if not ring_close(pc + [lit], a2, b2, tol, deadline, depth + 1, budget):
                return False
        return ok
    except TooBig:
        return False
    mb = R.maxabs(p)
    if mb is not None and mb <= tol:
        return True
    if not p:
        return True
    return False


def pick_split(d):
    """an ite condition that contains no ite itself"""
    for x in atoms([d]):
        if x.op == 'ite':
            c = x.args[0]
            # prefer a single literal
            while c.op in ('and', 'or', 'not', 'iff'):
                c = c.args[0]
            return c
    return None


def linear_abstraction(ts):
    m = {}
    for x in atoms(ts):
        if x.op == 'rprod':
            lo, hi = rbounds(x)
            m[x] = tm.fresh('mono', 'R', lo, hi)
        elif x.op in ('imul', 'idivv'):
            m[x] = tm.fresh('mono', 'I', x.lo, x.hi)
    if not m:
        return None
    memo = {}
    return [tm.subst(t, m, memo) for t in ts]


# ------------------------------------------------------------ proving
def lemma_instances(ts):
    return []


def prove(pc, goal, timeout=20.0, close=None, want_model=True):
    """-> (status, info, model) ; status in 'proved','refuted','unknown'"""
    STATS['queries'] += 1
    t0 = time.time()
    try:
        return _prove(pc, goal, timeout, close)
    finally:
        STATS['time'] += time.time() - t0


def _prove(pc, goal, timeout, close):
    if goal is TRUE:
        return 'proved', 'simplifier', None
    for c in pc:
        if c is goal:
            return 'proved', 'simplifier', None
        if c is FALSE:
            return 'proved', 'simplifier', None
    t0 = time.time()
    if close is not None:
        # alternatives; side: non-NaN conditions, already part of goal
        for a, b, tol, side in (close if isinstance(close, list) else [close]):
            if side is TRUE or entails_quick(pc, side, 3000):
                if ring_close(list(pc), a, b, tol, t0 + timeout):
                    return 'proved', 'ring', None
    neg = Not(goal)
    sl = slice_pc(pc, [neg])
    res = None
    # 0. non-linear monomials and applications abstracted to fresh variables
    lin = linear_abstraction(sl + [neg])
    if lin is not None:
        s = z3.Solver()
        s.set('timeout', int(max(1.0, timeout / 4) * 1000))
        to_solver(s, lin, False)
        if s.check() == z3.unsat:
            return 'proved', 'z3', None
    # 1. applications abstracted to constants (sound for proving)
    has_app = any(x.op == 'app' and len(x.args) > 1 for x in atoms(sl + [neg]))
    for uf in ((False, True) if has_app else (False,)):
        s = z3.Solver()
        s.set('timeout', int(max(1.0, timeout - (time.time() - t0)) * 1000))
        to_solver(s, sl + [neg], uf)
        r = s.check()
        if r == z3.unsat:
            return 'proved', 'z3', None
        res = (r, s)
        if r == z3.sat and not uf and has_app:
            continue
    r, s = res
    if r == z3.sat:
        # complete the model with the conjuncts that were sliced away
        s2 = z3.Solver()
        s2.set('timeout', int(timeout * 1000))
        to_solver(s2, list(pc) + [neg], has_app)
        r2 = s2.check()
        if r2 == z3.unsat:
            return 'proved', 'z3', None
        return 'refuted', 'z3', (s2.model() if r2 == z3.sat else s.model())
    # 2. cvc5
    st = cvc5(sl + [neg], timeout)
    if st == 'unsat':
        return 'proved', 'cvc5', None
    return 'unknown', 'z3:%s cvc5:%s' % (r, st), None


def cvc5(ts, timeout):
    s = z3.Solver()
    to_solver(s, ts, True)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), f.name], capture_output=True, text=True, timeout=timeout + 5)
        return p.stdout.strip().split('\n')[0] if p.stdout.strip() else 'error'
    except subprocess.TimeoutExpired:
        return 'timeout'
    finally:
        os.unlink(f.name)


def model_value(model, t):
    """python value of term t in a z3 model"""
    v = None
    for uf in (True, False):
        try:
            v = model.eval(toz3(t, _memo[uf], uf), model_completion=True)
            break
        except z3.Z3Exception:
            continue
    if v is None:
        return None
    if t.sort == 'B':
        return z3.is_true(v)
    if t.sort == 'I':
        return v.as_long() if z3.is_int_value(v) else None
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        q = v.approx(30)
        return Fraction(q.numerator_as_long(), q.denominator_as_long())
    return None
