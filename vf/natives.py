"""Instruction semantics helpers and models of external functions (trusted)."""
from fractions import Fraction
import math
import struct

from . import terms as tm
from . import smt
from .terms import (T, TRUE, FALSE, Not, And, Or, Ite, Iff, ic, iadd, isub, iscale, imul, idiv, imod, ile, ilt, ieq,
                    rc, radd, rsub, rmul, rdiv, rneg, rle, rlt, req, toreal, isc)


def _e():
    from . import engine
    return engine


EXC_BASES = {
    '_ZTISt9exception': [],
    '_ZTISt9bad_alloc': ['_ZTISt9exception'],
    '_ZTISt20bad_array_new_length': ['_ZTISt9bad_alloc'],
    '_ZTISt11logic_error': ['_ZTISt9exception'],
    '_ZTISt13runtime_error': ['_ZTISt9exception'],
    '_ZTISt12out_of_range': ['_ZTISt11logic_error'],
    '_ZTISt16invalid_argument': ['_ZTISt11logic_error'],
    '_ZTISt12length_error': ['_ZTISt11logic_error'],
    '_ZTISt12domain_error': ['_ZTISt11logic_error'],
    '_ZTISt14overflow_error': ['_ZTISt13runtime_error'],
    '_ZTISt11range_error': ['_ZTISt13runtime_error'],
    '_ZTISt12system_error': ['_ZTISt13runtime_error'],
    '_ZTISt17bad_function_call': ['_ZTISt9exception'],
    '_ZTINSt8ios_base7failureB5cxx11E': ['_ZTISt13runtime_error'],
    '_ZTISt8bad_cast': ['_ZTISt9exception'],
}

PI_LO = Fraction(math.pi) - Fraction(1, 10 ** 15)
PI_HI = Fraction(math.pi) + Fraction(1, 10 ** 15)


def trig_range(k, t):
    """sound bounds of sin/cos over the known range of the argument"""
    lo, hi = tm.rbounds(t)
    if lo is None or hi is None or hi - lo > 6:
        return Fraction(-1), Fraction(1)
    lo, hi = float(lo), float(hi)
    if k == 'cos':
        lo, hi = lo + math.pi / 2, hi + math.pi / 2
    vs = [math.sin(lo), math.sin(hi)]
    # extrema at pi/2 + n pi
    a = math.ceil((lo - math.pi / 2) / math.pi - 1e-9)
    while math.pi / 2 + a * math.pi <= hi + 1e-9:
        vs.append(1.0 if a % 2 == 0 else -1.0)
        a += 1
    m = 1e-12
    return max(Fraction(-1), Fraction(min(vs) - m)), min(Fraction(1), Fraction(max(vs) + m))


PI_MID = Fraction(math.pi)


def mono(f, lo, hi):
    a, b = f(float(lo)), f(float(hi))
    m = 1e-12 * (1 + abs(a) + abs(b))
    return Fraction(min(a, b) - m), Fraction(max(a, b) + m)


class Natives:
    # ------------------------------------------------------------ set-up
    def init_natives(self):
        e = _e()
        self.F, self.P, self.PU, self.U = e.F, e.P, e.PU, e.U
        self.PathEnd, self.NeedCase = e.PathEnd, e.NeedCase
        self.Unsupported = e.Unsupported
        self.exc_ti = {}
        self.ops = {
            'bin': self.op_bin, 'icmp': self.op_icmp, 'fcmp': self.op_fcmp, 'fneg': self.op_fneg,
            'select': self.op_select, 'cast': self.op_cast, 'load': self.op_load, 'alloca': self.op_alloca,
            'gep': self.op_gep, 'extractvalue': self.op_extractvalue, 'insertvalue': self.op_insertvalue,
            'extractelement': self.op_extractelement, 'insertelement': self.op_insertelement,
            'shuffle': self.op_shuffle, 'freeze': self.op_freeze, 'landingpad': self.op_landingpad,
            'rmw': self.op_rmw, 'cmpxchg': self.op_cmpxchg,
        }
        self._nat_cache = {}
        self.nat = dict(NATIVE)
        self.nat_prefix = list(NATIVE_DEM)

    def native(self, name):
        r = self._nat_cache.get(name, 0)
        if r != 0:
            return r
        f = self.nat.get(name)
        if f is None:
            dem = self.m.decls.get(name)
            if dem is None and name in self.m.funcs:
                dem = self.m.funcs[name].dem
            if dem:
                for pre, g in self.nat_prefix:
                    if dem.startswith(pre):
                        f = g
                        break
        r = None
        if f is not None:
            meth = f if callable(f) else getattr(self, f)

            def r(st, args, name, rty, meth=meth):
                v = meth(st, args, name, rty) if not getattr(meth, 'eng', False) else meth(self, st, args, name, rty)
                if isinstance(v, list):
                    return v
                return [('ret', v, st)]
        self._nat_cache[name] = r
        return r

    # ------------------------------------------------------------ instructions
    def op_bin(self, ins, env, st):
        op, ty, fl = ins[2], self.m.types[ins[3]], ins[6]
        a, b = self.val(env, ins[4]), self.val(env, ins[5])
        if ty[0] == 'v':
            et = self.m.types[ty[3]]
            return tuple(self.bin1(st, op, et, x, y, fl, ty[3]) for x, y in zip(self.vec(a, ins[3]), self.vec(b, ins[3])))
        return self.bin1(st, op, ty, a, b, fl, ins[3])

    def vec(self, v, ty):
        if isinstance(v, tuple):
            return v
        return self.coerce(v, ty)

    def bin1(self, st, op, ty, a, b, fl, tyi):
        if ty[0] == 'f':
            a = self.coerce(a, tyi)
            b = self.coerce(b, tyi)
            return self.fbin(st, op, a, b)
        w = ty[1]
        if a is self.U or b is self.U:
            return self.fresh_int(w)
        if w == 1:
            if op == 'and' or op == 'mul':
                return And(a, b)
            if op == 'or':
                return Or(a, b)
            if op in ('xor', 'add', 'sub'):
                return tm.Xor(a, b)
            raise self.Unsupported('i1 ' + op)
        a = self.toint(a, w)
        b = self.toint(b, w)
        nsw = bool(fl & 1) and self.check_overflow
        if op == 'add':
            return self.wrap(st, iadd(a, b), w, nsw)
        if op == 'sub':
            r = isub(a, b)
            if any(x.id in self.addrobj for x, _ in tm._lin(r)[1]):
                return r
            return self.wrap(st, r, w, nsw)
        if op == 'mul':
            return self.wrap(st, imul(a, b), w, nsw)
        if op == 'shl':
            if isc(b):
                k = b.args[0]
                if not 0 <= k < w:
                    self.oblige(st, FALSE, 'shift amount in range', kind='overflow')
                    raise self.PathEnd()
                return self.wrap(st, iscale(a, 1 << k), w, nsw)
            raise self.Unsupported('symbolic shift')
        if op in ('lshr', 'ashr'):
            if not isc(b):
                raise self.Unsupported('symbolic shift')
            k = b.args[0]
            if op == 'ashr':
                return idiv(a, 1 << k)
            r = idiv(self.unss(st, a, w), 1 << k)
            if k == 0:
                return a
            return r
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if op[0] == 'u':
                x, y = self.unss(st, a, w), self.unss(st, b, w)
            else:
                x, y = a, b
            if isc(y):
                d = y.args[0]
                if d == 0:
                    self.oblige(st, FALSE, 'no division by zero', kind='memory')
                    raise self.PathEnd()
            else:
                self.oblige(st, Not(ieq(y, ic(0))), 'no division by zero', kind='memory')
            if isc(x) and isc(y):
                n, d = x.args[0], y.args[0]
                q = abs(n) // abs(d)
                if (n < 0) != (d < 0):
                    q = -q
                return self.wrap(st, ic(q if op.endswith('div') else n - q * d), w)
            xp = (x.lo is not None and x.lo >= 0) or smt.entails_quick(st.pc, ile(ic(0), x))
            if isc(y) and y.args[0] > 0:
                d = y.args[0]
                if xp:
                    q = idiv(x, d)
                else:
                    q = Ite(ile(ic(0), x), idiv(x, d), iscale(idiv(iscale(x, -1), d), -1))
            elif xp and ((y.lo is not None and y.lo >= 0) or smt.entails_quick(st.pc, ile(ic(0), y))):
                q = tm.idivv(x, y)
                if not isc(q) and q.op == 'idivv':
                    # Euclidean facts of q = x / y, y > 0
                    st.assume(ile(ic(0), q))
                    st.assume(ile(imul(q, y), x))
                    st.assume(ilt(x, iadd(imul(q, y), y)))
            else:
                sx, sy = ile(ic(0), x), ile(ic(0), y)
                ax, ay = Ite(sx, x, iscale(x, -1)), Ite(sy, y, iscale(y, -1))
                q = tm.idivv(ax, ay)
                if not isc(q) and q.op == 'idivv':
                    st.assume(ile(ic(0), q))
                    st.assume(ile(imul(q, ay), ax))
                    st.assume(ilt(ax, iadd(imul(q, ay), ay)))
                q = Ite(Iff(sx, sy), q, iscale(q, -1))
            if op.endswith('div'):
                return self.wrap(st, q, w)
            return self.wrap(st, isub(x, imul(q, y)), w)
        if op in ('and', 'or', 'xor'):
            return self.bitop(st, op, a, b, w)
        raise self.Unsupported('int op ' + op)

    def bitop(self, st, op, a, b, w):
        if isc(a) and isc(b):
            x, y = a.args[0], b.args[0]
            r = x & y if op == 'and' else x | y if op == 'or' else x ^ y
            return ic(r)
        if isc(a):
            a, b = b, a
        for x, y in ((a, b), (b, a)):
            if x.op == 'ite' and isc(x.args[1]) and isc(x.args[2]):
                return Ite(x.args[0], self.bitop(st, op, x.args[1], y, w), self.bitop(st, op, x.args[2], y, w))
        if isc(b):
            m = b.args[0]
            if op == 'and':
                if m == 0:
                    return ic(0)
                if m == -1:
                    return a
                if m > 0 and (m & (m + 1)) == 0:
                    return imod(a, m + 1)
                n = -m
                if m < 0 and (n & (n - 1)) == 0:
                    return isub(a, imod(a, n))
                if m > 0:
                    # contiguous mask
                    sh = (m & -m).bit_length() - 1
                    k = m >> sh
                    if (k & (k + 1)) == 0:
                        return iscale(imod(idiv(a, 1 << sh), k + 1), 1 << sh)
            if op == 'or':
                if m == 0:
                    return a
                if m == -1:
                    return ic(-1)
            if op == 'xor':
                if m == 0:
                    return a
                if m == -1:
                    return isub(ic(-1), a)
            if a.op == 'ite':
                return Ite(a.args[0], self.bitop(st, op, a.args[1], b, w), self.bitop(st, op, a.args[2], b, w))
            if op == 'xor' and m > 0 and (m & (m - 1)) == 0:
                bit = imod(idiv(a, m), 2)
                return iadd(a, Ite(ieq(bit, ic(0)), ic(m), ic(-m)))
            if op == 'or' and m > 0 and (m & (m - 1)) == 0:
                bit = imod(idiv(a, m), 2)
                return iadd(a, Ite(ieq(bit, ic(0)), ic(m), ic(0)))
        if op == 'or':
            # disjoint bits: x*2^k | y with y < 2^k
            for x, y in ((a, b), (b, a)):
                if y.lo is not None and y.lo >= 0 and y.hi is not None:
                    k = y.hi.bit_length()
                    c, it = tm._lin(x)
                    if c % (1 << k) == 0 and all(q % (1 << k) == 0 for _, q in it):
                        return iadd(x, y)
        if a.op == 'ite':
            return Ite(a.args[0], self.bitop(st, op, a.args[1], b, w), self.bitop(st, op, a.args[2], b, w))
        if b.op == 'ite':
            return Ite(b.args[0], self.bitop(st, op, a, b.args[1], w), self.bitop(st, op, a, b.args[2], w))
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        nn = all(x.lo is not None and x.lo >= 0 for x in (a, b))
        r = tm.app('bit' + op, (a, b), 'I', 0 if nn else lo, hi)
        if not nn:   # sign of the result
            na, nb = ilt(a, ic(0)), ilt(b, ic(0))
            st.assume(Iff(ilt(r, ic(0)), tm.Xor(na, nb) if op == 'xor' else And(na, nb) if op == 'and' else Or(na, nb)))
        return r

    def fbin(self, st, op, a, b):
        n = Or(a.n, b.n)
        if n is TRUE:
            return self.F(tm.R0, TRUE)
        if op == 'fadd':
            return self.F(radd(a.r, b.r), n)
        if op == 'fsub':
            return self.F(rsub(a.r, b.r), n)
        if op == 'fmul':
            return self.F(rmul(a.r, b.r), n)
        if op == 'fdiv':
            z = req(b.r, tm.R0)
            if z is TRUE:
                return self.F(tm.R0, TRUE)
            if z is not FALSE and not smt.feasible(st.pc, And(z, Not(n)), self.t_feas):
                z = FALSE
            return self.F(rdiv(a.r, b.r), Or(n, z))
        if op == 'frem':
            return self.fmod(st, a, b)
        raise self.Unsupported(op)

    def fmod(self, st, a, b):
        z = req(b.r, tm.R0)
        q = rdiv(a.r, b.r)
        t = self.trunc(q)
        return self.F(rsub(a.r, rmul(toreal(t), b.r)), Or(a.n, b.n, z))

    def trunc(self, r):
        lo, hi = tm.rbounds(r)
        if lo is not None and lo >= 0:
            return tm.floor(r)
        if hi is not None and hi <= 0:
            return iscale(tm.floor(rneg(r)), -1)
        return Ite(rle(tm.R0, r), tm.floor(r), iscale(tm.floor(rneg(r)), -1))

    def rne(self, r):
        """round to nearest, ties to even"""
        h = radd(r, rc(Fraction(1, 2)))
        f = tm.floor(h)
        if isc(f) and h.op == 'rc':
            v = f.args[0]
            if h.args[0] == v and v % 2:
                v -= 1
            return ic(v)
        return isub(f, Ite(And(req(h, toreal(f)), ieq(imod(f, 2), ic(1))), ic(1), ic(0)))

    def op_fneg(self, ins, env, st):
        a = self.val(env, ins[3])
        if isinstance(a, tuple):
            return tuple(self.F(rneg(x.r), x.n) for x in a)
        a = self.coerce(a, ins[2])
        return self.F(rneg(a.r), a.n)

    def op_icmp(self, ins, env, st):
        pred = ins[2]
        t = self.m.types[ins[3]]
        a, b = self.val(env, ins[4]), self.val(env, ins[5])
        if t[0] == 'p' or isinstance(a, (self.P, self.PU)) or isinstance(b, (self.P, self.PU)):
            return self.pcmp(st, pred, self.coerce(a, ins[3]) if t[0] == 'p' else a, self.coerce(b, ins[3]) if t[0] == 'p' else b)
        w = t[1]
        if a is self.U or b is self.U:
            return self.fresh_int(1)
        if w == 1:
            if pred == 'eq':
                return Iff(a, b)
            if pred == 'ne':
                return tm.Xor(a, b)
            a, b = self.toint(a, 8), self.toint(b, 8)
            if pred[0] == 's':
                a, b = iscale(a, -1), iscale(b, -1)
        else:
            a, b = self.toint(a, w), self.toint(b, w)
        if pred == 'eq':
            return ieq(a, b)
        if pred == 'ne':
            return Not(ieq(a, b))
        if pred[0] == 'u' and w != 1:
            # x <u c with a constant: keep the shape linear
            a, b = self.unss(st, a, w), self.unss(st, b, w)
        p = pred[1:]
        if p == 'lt':
            return ilt(a, b)
        if p == 'le':
            return ile(a, b)
        if p == 'gt':
            return ilt(b, a)
        return ile(b, a)

    def pcmp(self, st, pred, a, b):
        P, PU = self.P, self.PU
        if isinstance(a, T):
            a = self.i2p(a)
        if isinstance(b, T):
            b = self.i2p(b)
        if isinstance(a, PU) or isinstance(b, PU):
            r = FALSE
            for g, x in (a.alts if isinstance(a, PU) else [(TRUE, a)]):
                for h, y in (b.alts if isinstance(b, PU) else [(TRUE, b)]):
                    r = Or(r, And(g, h, self.pcmp(st, pred, x, y)))
            return r
        if a.o == -1 or b.o == -1:
            return self.fresh_int(1)
        if a.o == b.o:
            x, y = a.off, b.off
            if pred == 'eq':
                return ieq(x, y)
            if pred == 'ne':
                return Not(ieq(x, y))
            p = pred[1:]
            return {'lt': ilt(x, y), 'le': ile(x, y), 'gt': ilt(y, x), 'ge': ile(y, x)}[p]
        if pred == 'eq':
            return FALSE
        if pred == 'ne':
            return TRUE
        if a.o == 0 and isc(a.off) or b.o == 0 and isc(b.off):
            x = ic(0) if a.o == 0 else ic(1)
            y = ic(0) if b.o == 0 else ic(1)
            p = pred[1:]
            return {'lt': ilt(x, y), 'le': ile(x, y), 'gt': ilt(y, x), 'ge': ile(y, x)}[p]
        # order of unrelated objects is unspecified but fixed
        x, y = self.p2i(a), self.p2i(b)
        p = pred[1:]
        return {'lt': ilt(x, y), 'le': ile(x, y), 'gt': ilt(y, x), 'ge': ile(y, x)}[p]

    def op_fcmp(self, ins, env, st):
        pred = ins[2]
        a, b = self.coerce(self.val(env, ins[4]), ins[3]), self.coerce(self.val(env, ins[5]), ins[3])
        if isinstance(a, tuple):
            raise self.Unsupported('vector fcmp')
        n = Or(a.n, b.n)
        if pred == 'ord':
            return Not(n)
        if pred == 'uno':
            return n
        if pred == 'true':
            return TRUE
        if pred == 'false':
            return FALSE
        p = pred[1:]
        if n is TRUE:
            return FALSE if pred[0] == 'o' else TRUE
        if ins[4] == ins[5] and isinstance(ins[4], int):
            r = tm.B(p in ('eq', 'le', 'ge'))
        elif p == 'eq':
            r = req(a.r, b.r)
        elif p == 'ne':
            r = Not(req(a.r, b.r))
        elif p == 'lt':
            r = rlt(a.r, b.r)
        elif p == 'le':
            r = rle(a.r, b.r)
        elif p == 'gt':
            r = rlt(b.r, a.r)
        else:
            r = rle(b.r, a.r)
        if pred[0] == 'o':
            return And(Not(n), r)
        return Or(n, r)

    def op_select(self, ins, env, st):
        c = self.val(env, ins[3])
        a, b = self.val(env, ins[4]), self.val(env, ins[5])
        if isinstance(c, tuple):
            return tuple(self.sel1(x, y, z) for x, y, z in zip(c, a, b))
        if c is self.U:
            c = self.fresh_int(1)
        return self.sel1(c, self.fix(a, ins[2]), self.fix(b, ins[2]))

    def fix(self, v, ty):
        return v

    def sel1(self, c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        return _e().merge_val(c, a, b)

    def op_cast(self, ins, env, st):
        k = ins[2]
        s, d = self.m.types[ins[3]], self.m.types[ins[4]]
        v = self.val(env, ins[5])
        if s[0] == 'v' and d[0] == 'v' and s[2] == d[2] and k != 'bitcast':
            return tuple(self.cast1(st, k, self.m.types[s[3]], self.m.types[d[3]], x, s[3], d[3]) for x in self.vec(v, ins[3]))
        return self.cast1(st, k, s, d, v, ins[3], ins[4])

    def cast1(self, st, k, s, d, v, si, di):
        if v is self.U:
            return self.U
        if k == 'zext':
            if s[1] == 1:
                return Ite(self.coerce(v, si), ic(1), ic(0))
            r = self.uns(self.toint(v, s[1]), s[1])
            return r
        if k == 'sext':
            if s[1] == 1:
                return Ite(self.coerce(v, si), ic(-1), ic(0))
            return self.toint(v, s[1])
        if k == 'trunc':
            if isinstance(v, _e().Raw):
                v = self.toint(v, s[1])
            if isinstance(v, (self.P, self.PU)):
                v = self.p2i(v)
            if isinstance(v, self.F):
                raise self.Unsupported('trunc of float bits')
            w = d[1]
            if w == 1:
                if v.op == 'ite' and isc(v.args[1]) and isc(v.args[2]):
                    return tm.ite_b(v.args[0], tm.B(v.args[1].args[0] & 1), tm.B(v.args[2].args[0] & 1))
                return Not(ieq(imod(v, 2), ic(0)))
            return self.wrap(st, v, w)
        if k in ('sitofp', 'uitofp'):
            if s[1] == 1:
                t = Ite(self.coerce(v, si), ic(1 if k[0] == 'u' else -1), ic(0))
            else:
                t = self.toint(v, s[1])
                if k[0] == 'u':
                    t = self.unss(st, t, s[1])
            return self.F(toreal(t))
        if k in ('fptosi', 'fptoui'):
            v = self.coerce(v, si)
            self.oblige(st, Not(v.n), 'no conversion of NaN to an integer', kind='overflow')
            t = self.trunc(v.r)
            w = d[1]
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if k == 'fptosi' else (0, (1 << w) - 1)
            if not (t.lo is not None and t.hi is not None and t.lo >= lo and t.hi <= hi):
                self.oblige(st, And(ile(ic(lo), t), ile(t, ic(hi))), 'float to integer conversion in range', kind='overflow')
            if k == 'fptoui' and not (t.hi is not None and t.hi < (1 << (w - 1))):
                return self.wrap(st, t, w)
            return t
        if k in ('fpext', 'fptrunc'):
            return self.coerce(v, si)
        if k == 'ptrtoint':
            return self.p2i(self.coerce(v, si))
        if k == 'inttoptr':
            return self.i2p(self.toint(v, 64))
        if k == 'bitcast':
            if d[0] == s[0] and d[0] in 'ifp':
                return v
            if isinstance(v, tuple):
                lay = self.layout(s)
                ps = [(o, self.m.size(e), x) for (o, e), x in zip(lay, v)]
                v = _e().Raw(ps, self.m.size(si))
            elif not isinstance(v, _e().Raw):
                if d[0] == 'f' and isinstance(v, T):
                    return self.bits_to_f(v, d[1])
                if d[0] == 'i' and isinstance(v, self.F):
                    return v      # kept as raw bits
                v = _e().Raw([(0, self.m.size(si), v)], self.m.size(si))
            if d[0] in ('v', 'f'):
                return self.coerce(v, di)
            return v
        raise self.Unsupported('cast ' + k)

    def op_load(self, ins, env, st):
        return self.load(st, self.coerce(self.val(env, ins[3]), self.ptrty()), ins[2])

    def ptrty(self):
        for i, t in enumerate(self.m.types):
            if t[0] == 'p':
                self.ptrty = lambda: i
                return i

    def op_alloca(self, ins, env, st):
        n = self.val(env, ins[3])
        size = iscale(n, ins[2])
        return self.P(self.new_obj(st, size, 'stack', ins[4] or 'local'), ic(0))

    def op_gep(self, ins, env, st):
        p = self.val(env, ins[2])
        if ins[3] == 'unsupported':
            raise self.Unsupported('gep')
        off = ic(ins[3])
        for v, k, ty in ins[4]:
            x = self.val(env, v)
            if x is self.U:
                return self.P(-1, ic(0))
            x = self.toint(x, 64)
            off = iadd(off, iscale(x, k))
        if isinstance(p, self.PU):
            return _e().mkpu([(g, self.P(q.o, iadd(q.off, off))) for g, q in p.alts])
        if not isinstance(p, self.P):
            p = self.coerce(p, self.ptrty())
            if isinstance(p, self.PU):
                return _e().mkpu([(g, self.P(q.o, iadd(q.off, off))) for g, q in p.alts])
        return self.P(p.o, iadd(p.off, off))

    def op_extractvalue(self, ins, env, st):
        v = self.val(env, ins[2])
        for i in ins[3]:
            if v is self.U:
                return self.U
            v = v[i]
        return v

    def op_insertvalue(self, ins, env, st):
        a, x = self.val(env, ins[3]), self.val(env, ins[4])

        def ins1(agg, idx, ty):
            t = self.m.types[ty]
            lay = self.layout(t)
            if agg is self.U:
                agg = tuple(self.U for _ in lay)
            agg = list(agg)
            if len(idx) == 1:
                agg[idx[0]] = x
            else:
                agg[idx[0]] = ins1(agg[idx[0]], idx[1:], lay[idx[0]][1])
            return tuple(agg)
        return ins1(a, ins[5], ins[2])

    def op_extractelement(self, ins, env, st):
        v, i = self.val(env, ins[2]), self.val(env, ins[3])
        if v is self.U:
            return self.U
        if not isc(i):
            raise self.Unsupported('symbolic vector index')
        return v[i.args[0]]

    def op_insertelement(self, ins, env, st):
        v, x, i = self.val(env, ins[3]), self.val(env, ins[4]), self.val(env, ins[5])
        t = self.m.types[ins[2]]
        if v is self.U:
            v = tuple(self.U for _ in range(t[2]))
        if not isc(i):
            raise self.Unsupported('symbolic vector index')
        v = list(v)
        v[i.args[0]] = x
        return tuple(v)

    def op_shuffle(self, ins, env, st):
        t = self.m.types[ins[2]]
        a, b = self.val(env, ins[3]), self.val(env, ins[4])
        n = t[2]
        a = a if isinstance(a, tuple) else tuple(self.U for _ in range(n))
        b = b if isinstance(b, tuple) else tuple(self.U for _ in range(n))
        ab = a + b
        return tuple(self.U if m < 0 else ab[m] for m in ins[5])

    def op_freeze(self, ins, env, st):
        return self.val(env, ins[2])

    def op_landingpad(self, ins, env, st):
        return env['lp']

    def op_rmw(self, ins, env, st):
        p = self.val(env, ins[4])
        old = self.load(st, p, ins[3])
        v = self.val(env, ins[5])
        w = self.m.types[ins[3]][1]
        op = ins[2]
        if op == 'add':
            new = self.wrap(st, iadd(old, v), w)
        elif op == 'sub':
            new = self.wrap(st, isub(old, v), w)
        elif op == 'xchg':
            new = v
        else:
            raise self.Unsupported('atomicrmw ' + op)
        self.store(st, p, new, ins[3])
        return old

    def op_cmpxchg(self, ins, env, st):
        p = self.val(env, ins[3])
        old = self.load(st, p, ins[2])
        cmp, new = self.val(env, ins[4]), self.val(env, ins[5])
        if isinstance(old, (self.P, self.PU)):
            eq = self.pcmp(st, 'eq', old, cmp)
        else:
            eq = ieq(old, cmp)
        self.store(st, p, _e().merge_val(eq, new, old) if eq is not TRUE else new, ins[2])
        return (old, eq)

    # ------------------------------------------------------------ intrinsics
    def intrinsic(self, name, args, st, ins):
        base = name[5:]
        if base.startswith('memcpy') or base.startswith('memmove'):
            self.copy(st, args[0], args[1], self.toint(args[2], 64))
            return None
        if base.startswith('memset'):
            self.memset(st, args[0], self.toint(args[1], 8), self.toint(args[2], 64))
            return None
        k = base.split('.')[0]
        if k in ('fabs', 'sqrt', 'floor', 'ceil', 'round', 'trunc', 'rint', 'nearbyint', 'sin', 'cos', 'pow', 'exp', 'log', 'fmuladd', 'fma', 'minnum', 'maxnum', 'copysign'):
            a = [self.coerce(x, ty) if not isinstance(x, T) else x for x, ty in zip(args, ins[5])]
            return self.fmath(st, k, a)
        w = None
        t = self.m.types[ins[2]] if ins[2] is not None else None
        if k in ('smax', 'smin', 'umax', 'umin', 'abs'):
            a = self.toint(args[0], t[1])
            if k == 'abs':
                return Ite(ile(ic(0), a), a, self.wrap(st, iscale(a, -1), t[1]))
            b = self.toint(args[1], t[1])
            x, y = (a, b) if k[0] == 's' else (self.unss(st, a, t[1]), self.unss(st, b, t[1]))
            c = ile(x, y)
            return Ite(c, b, a) if k[1:] == 'max' else Ite(c, a, b)
        if k in ('uadd', 'umul', 'usub', 'sadd', 'smul', 'ssub') and 'with' in base:
            w = self.m.types[t[2][0][1]][1]
            a, b = self.toint(args[0], w), self.toint(args[1], w)
            if k[0] == 'u':
                a, b = self.unss(st, a, w), self.unss(st, b, w)
                lo, hi = 0, (1 << w) - 1
            else:
                lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
            r = {'add': iadd, 'mul': imul, 'sub': isub}[k[1:]](a, b)
            ov = Not(And(ile(ic(lo), r), ile(r, ic(hi))))
            if ov is not FALSE and smt.entails_quick(st.pc, Not(ov)):
                ov = FALSE
            return (self.wrap(st, r, w) if ov is not FALSE else r, ov)
        if k == 'usub' and 'sat' in base:
            a, b = self.unss(st, self.toint(args[0], t[1]), t[1]), self.unss(st, self.toint(args[1], t[1]), t[1])
            return Ite(ile(b, a), isub(a, b), ic(0))
        if k == 'is' and 'constant' in base:
            return FALSE
        if k == 'expect':
            return args[0]
        if k == 'eh' and 'typeid' in base:
            return ic(self.typeid_of(self.ti_name(args[0])))
        if k == 'objectsize':
            return ic(-1)
        if k == 'is' and 'fpclass' in base:
            v = self.coerce(args[0], ins[5][0])
            m = args[1].args[0]
            r = FALSE
            if m & 3:
                r = Or(r, v.n)
            if m & (8 | 16):
                r = Or(r, And(Not(v.n), rlt(v.r, tm.R0)))
            if m & (128 | 256):
                r = Or(r, And(Not(v.n), rlt(tm.R0, v.r)))
            if m & (32 | 64):
                r = Or(r, And(Not(v.n), req(v.r, tm.R0)))
            return r
        if k in ('trap', 'donothing', 'prefetch', 'sideeffect', 'stacksave', 'stackrestore', 'invariant', 'launder', 'strip'):
            if k == 'trap':
                self.oblige(st, FALSE, 'no trap', kind='memory')
                raise self.PathEnd()
            if k in ('launder', 'strip'):
                return args[0]
            return self.U
        if k == 'threadlocal':
            return args[0]
        if k == 'vector':
            raise self.Unsupported(name)
        raise self.Unsupported('intrinsic ' + name)

    # ------------------------------------------------------------ math
    def uf(self, name, args, n, lo=None, hi=None):
        return self.F(tm.app(name, tuple(args), 'R', lo, hi), n)

    def fmath(self, st, k, a):
        F = self.F
        x = a[0]
        n = x.n
        if k == 'fabs':
            return F(tm.rabs(x.r), n)
        if k in ('sin', 'cos'):
            blo, bhi = trig_range(k, x.r)
            if x.r.op == 'rc':
                return F(rc(Fraction(getattr(math, k)(float(x.r.args[0])))), n)
            s = x.r
            # canonical sign of the argument
            c, it = tm._sum(s)
            lead = it[0][1]
            if lead < 0:
                if k == 'sin':
                    blo, bhi = -bhi, -blo
                t = tm.app(k, (rneg(s),), 'R', blo, bhi)
                return F(rneg(t) if k == 'sin' else t, n)
            return self.uf(k, (s,), n, blo, bhi)
        if k == 'tan':
            if x.r.op == 'rc':
                return F(rc(Fraction(math.tan(float(x.r.args[0])))), n)
            lo, hi = tm.rbounds(x.r)
            if lo is not None and hi is not None and lo > Fraction(-157, 100) and hi < Fraction(157, 100):
                return self.uf(k, (x.r,), n, *mono(math.tan, lo, hi))
            return self.uf(k, (x.r,), n)
        if k == 'atan':
            if x.r.op == 'rc':
                return F(rc(Fraction(math.atan(float(x.r.args[0])))), n)
            c, it = tm._sum(x.r)
            if c == 0 and len(it) == 1 and it[0][0].op == 'app' and it[0][0].args[0] == 'tan':
                # lemma: |atan(a tan y) - (y - pi floor(y/pi + 1/2))| <= atan(|a-1| / (2 sqrt a)), a > 0
                q, y = it[0][1], it[0][0].args[1]
                aq = abs(q)
                d = Fraction(math.atan(abs(float(aq) - 1) / (2 * math.sqrt(float(aq)))) + 1e-9)
                m = tm.floor(radd(tm.rscale(y, 1 / PI_MID), rc(Fraction(1, 2))))
                r = radd(rsub(y, tm.rscale(toreal(m), PI_MID)), tm.app('atantan', (rc(aq), y), 'R', -d, d))
                return F(r if q > 0 else rneg(r), n)
            lo, hi = tm.rbounds(x.r)
            if lo is not None and hi is not None:
                return self.uf(k, (x.r,), n, *mono(math.atan, lo, hi))
            return self.uf(k, (x.r,), n, -PI_HI / 2, PI_HI / 2)
        if k == 'atan2':
            y = a[1]
            if x.r.op == 'rc' and y.r.op == 'rc':
                return F(rc(Fraction(math.atan2(float(x.r.args[0]), float(y.r.args[0])))), Or(n, y.n))
            return self.uf(k, (x.r, y.r), Or(n, y.n), -PI_HI, PI_HI)
        if k in ('acos', 'asin'):
            if x.r.op == 'rc' and abs(x.r.args[0]) <= 1:
                return F(rc(Fraction(getattr(math, k)(float(x.r.args[0])))), n)
            bad = Not(And(rle(rc(-1), x.r), rle(x.r, rc(1))))
            if bad is not FALSE and smt.entails_quick(st.pc, Not(bad)):
                bad = FALSE
            lo, hi = tm.rbounds(x.r)
            if lo is not None and hi is not None and lo >= -1 and hi <= 1:
                return self.uf(k, (x.r,), Or(n, bad), *mono(getattr(math, k), lo, hi))
            return self.uf(k, (x.r,), Or(n, bad), Fraction(0) if k == 'acos' else -PI_HI / 2, PI_HI if k == 'acos' else PI_HI / 2)
        if k == 'sqrt':
            if x.r.op == 'rc' and x.r.args[0] >= 0:
                return F(rc(Fraction(math.sqrt(float(x.r.args[0])))), n)
            bad = rlt(x.r, tm.R0)
            if bad is not FALSE and not smt.feasible(st.pc, bad):
                bad = FALSE
            lo, hi = tm.rbounds(x.r)
            return self.uf('sqrt', (x.r,), Or(n, bad), Fraction(0), None if hi is None or hi < 0 else Fraction(math.sqrt(float(hi)) * (1 + 1e-12) + 1e-300))
        if k == 'floor':
            return F(toreal(tm.floor(x.r)), n)
        if k == 'ceil':
            return F(toreal(iscale(tm.floor(rneg(x.r)), -1)), n)
        if k == 'trunc':
            return F(toreal(self.trunc(x.r)), n)
        if k == 'round':
            return F(toreal(self.round_away(x.r)), n)
        if k in ('rint', 'nearbyint'):
            return F(toreal(self.rne(x.r)), n)
        if k in ('fmuladd', 'fma'):
            return F(radd(rmul(x.r, a[1].r), a[2].r), Or(n, a[1].n, a[2].n))
        if k == 'pow':
            e = a[1]
            if e.r.op == 'rc':
                q = e.r.args[0]
                if q.denominator == 1 and abs(q) <= 12:
                    r = tm.R1
                    for _ in range(abs(int(q))):
                        r = rmul(r, x.r)
                    if q < 0:
                        return F(tm.rinv(r), Or(n, req(x.r, tm.R0)))
                    return F(r, n)
                if x.r.op == 'rc' and x.r.args[0] > 0:
                    return F(rc(Fraction(math.pow(float(x.r.args[0]), float(q)))), n)
            return self.uf('pow', (x.r, e.r), Or(n, e.n))
        if k in ('exp', 'log'):
            return self.uf(k, (x.r,), n)
        if k in ('minnum', 'maxnum'):
            y = a[1]
            c = rle(x.r, y.r)
            r = Ite(c, x.r, y.r) if k == 'minnum' else Ite(c, y.r, x.r)
            r = Ite(x.n, y.r, Ite(y.n, x.r, r))
            return F(r, And(x.n, y.n))
        if k == 'copysign':
            y = a[1]
            m = tm.rabs(x.r)
            return F(Ite(rlt(y.r, tm.R0), rneg(m), m), n)
        raise self.Unsupported('math ' + k)

    def round_away(self, r):
        h = rc(Fraction(1, 2))
        lo, hi = tm.rbounds(r)
        if lo is not None and lo >= 0:
            return tm.floor(radd(r, h))
        return Ite(rle(tm.R0, r), tm.floor(radd(r, h)), iscale(tm.floor(radd(rneg(r), h)), -1))

    def n_math(self, st, args, name, rty):
        k = name
        if k.endswith('f') and k not in ('erf',) and len(k) > 3 and k[:-1] in ('sin', 'cos', 'tan', 'atan', 'sqrt', 'fabs', 'floor', 'ceil', 'round', 'pow', 'atan2'):
            k = k[:-1]
        if k in ('fmax', 'fmin', 'fmaxf', 'fminf'):
            k = 'maxnum' if 'max' in k else 'minnum'
        a = [self.coerce(x, rty) for x in args]
        if k == 'remainder' or k == 'remainderf':
            x, y = a
            z = req(y.r, tm.R0)
            q = rdiv(x.r, y.r)
            return self.F(rsub(x.r, rmul(toreal(self.rne(q)), y.r)), Or(x.n, y.n, z))
        if k in ('fmod', 'fmodf'):
            return self.fmod(st, a[0], a[1])
        if k == 'hypot':
            return self.fmath(st, 'sqrt', [self.F(radd(rmul(a[0].r, a[0].r), rmul(a[1].r, a[1].r)), Or(a[0].n, a[1].n))])
        return self.fmath(st, k, a)

    def n_remquo(self, st, args, name, rty):
        x, y = self.coerce(args[0], rty), self.coerce(args[1], rty)
        z = req(y.r, tm.R0)
        n = self.rne(rdiv(x.r, y.r))
        neg = ilt(n, ic(0))
        q = Ite(neg, iscale(imod(iscale(n, -1), 8), -1), imod(n, 8))
        i32 = [i for i, t in enumerate(self.m.types) if t[0] == 'i' and t[1] == 32][0]
        self.store(st, args[2], q, i32)
        return self.F(rsub(x.r, rmul(toreal(n), y.r)), Or(x.n, y.n, z))

    # ------------------------------------------------------------ memory natives
    def n_new(self, st, args, name, rty):
        return self.P(self.new_obj(st, self.unss(st, self.toint(args[0], 64), 64), 'heap', 'heap'), ic(0))

    def n_delete(self, st, args, name, rty):
        p = args[0]
        if isinstance(p, self.P):
            if p.o > 0:
                o = self.obj(st, p.o)
                if o.kind != 'heap' or p.o in st.freed:
                    self.oblige(st, FALSE, 'valid deallocation of ' + o.name, kind='memory')
                    raise self.PathEnd()
                st.freed = st.freed | {p.o}
        return None

    def n_calloc(self, st, args, name, rty):
        n = imul(self.toint(args[0], 64), self.toint(args[1], 64))
        p = self.P(self.new_obj(st, n, 'heap', 'heap'), ic(0))
        self.memset(st, p, ic(0), n)
        return p

    def n_memcpy(self, st, args, name, rty):
        self.copy(st, args[0], args[1], self.toint(args[2], 64))
        return args[0]

    def n_memset(self, st, args, name, rty):
        self.memset(st, args[0], self.toint(args[1], 8), self.toint(args[2], 64))
        return args[0]

    def n_strlen(self, st, args, name, rty):
        p = args[0]
        if isinstance(p, self.PU):
            raise self.NeedCase([g for g, _ in p.alts])
        o = self.obj(st, p.o)
        if not isc(p.off) or o.arr is not None:
            raise self.Unsupported('strlen of symbolic string')
        n = 0
        while True:
            c = o.cells.get(p.off.args[0] + n)
            if c is None or not isinstance(c[1], T) or not isc(c[1]):
                raise self.Unsupported('strlen of symbolic string')
            if c[1].args[0] == 0:
                return ic(n)
            n += 1

    def n_memcmp(self, st, args, name, rty):
        n = self.toint(args[2], 64)
        r = ic(0)
        u8 = lambda v: self.uns(v, 8)
        if not isc(n):
            hi = n.hi
            if hi is None or hi > 64:
                raise self.Unsupported('memcmp of symbolic length')
            for i in reversed(range(hi)):
                c = ilt(ic(i), n)
                if c is FALSE or not smt.feasible(st.pc, c):
                    continue
                s2 = st.fork()
                s2.assume(c)
                a = u8(self.byte_at(s2, args[0], i))
                b = u8(self.byte_at(s2, args[1], i))
                r = Ite(c, Ite(ieq(a, b), r, Ite(ilt(a, b), ic(-1), ic(1))), r)
            return r
        for i in reversed(range(n.args[0])):
            a = u8(self.byte_at(st, args[0], i))
            b = u8(self.byte_at(st, args[1], i))
            r = Ite(ieq(a, b), r, Ite(ilt(a, b), ic(-1), ic(1)))
        return r

    def byte_at(self, st, p, i):
        if isinstance(p, self.PU):
            r = None
            for g, q in reversed(p.alts):
                if not smt.feasible(st.pc, g):
                    continue
                v = self.byte_at(st, q, i)
                r = v if r is None else _e().merge_val(g, v, r)
            return r
        q = self.P(p.o, iadd(p.off, ic(i)))
        o = self.check_access(st, q, 1, 'read')
        v = self.load_obj(st, o, q.off, 1, ['i', 8, 1])
        return self.toint(v, 8)

    def n_memchr(self, st, args, name, rty):
        raise self.Unsupported('memchr')

    def single(self, st, p):
        """resolve a guarded pointer to feasible alternatives"""
        if isinstance(p, self.PU):
            al = [(g, q) for g, q in p.alts if smt.feasible(st.pc, g)]
            if len(al) == 1:
                return al[0][1]
            raise self.NeedCase([g for g, _ in al])
        return p

    def copy(self, st, d, s, n):
        if isc(n) and n.args[0] == 0:
            return
        d = self.single(st, self.coerce(d, self.ptrty()))
        s = self.single(st, self.coerce(s, self.ptrty()))
        if not isc(n):
            z = ieq(n, ic(0))
            if n.lo is not None and n.hi is not None and n.hi - n.lo <= 40 and n.lo >= 0:
                ks = [k for k in range(n.lo, n.hi + 1) if smt.feasible(st.pc, ieq(n, ic(k)))]
                if len(ks) == 1:
                    return self.copy(st, d, s, ic(ks[0]))
            return self.copy_sym(st, d, s, n)
        sz = n.args[0]
        so = self.check_access(st, s, sz, 'copy source')
        do = self.check_access(st, d, sz, 'copy destination')
        if so.arr is None and isc(s.off) and do.arr is None and isc(d.off):
            v = self.range_parts(so, s.off.args[0], sz)
            do = self.wobj(st, d.o)
            base = d.off.args[0]
            # clear destination range
            for a in [a for a in do.cells if a < base + sz and a + do.cells[a][0] > base]:
                cs, cv = do.cells[a]
                del do.cells[a]
                if a < base:
                    do.cells[a] = (base - a, self.slice_val(cv, cs, 0, base - a))
                if a + cs > base + sz:
                    do.cells[base + sz] = (a + cs - base - sz, self.slice_val(cv, cs, base + sz - a, a + cs - base - sz))
            for o, k, x in v:
                if x is not self.U:
                    do.cells[base + o] = (k, x)
            return
        if so.arr is not None and sz % so.es == 0 and (do.arr is None or sz // so.es <= 4) and sz // so.es <= 4096:
            if do.arr is None or do.es == so.es:
                vals = []
                for k in range(sz // so.es):
                    i = self.index_of(st, iadd(s.off, ic(k * so.es)), so.es)
                    if i is None:
                        raise self.Unsupported('misaligned copy')
                    vals.append(so.arr.select(i))
                for k, x in enumerate(vals):
                    self.put(st, self.obj(st, d.o), iadd(d.off, ic(k * so.es)), so.es, x)
                return
        if so.arr is None and do.arr is not None and isc(s.off):
            for o, k, x in self.range_parts(so, s.off.args[0], sz):
                self.put(st, self.obj(st, d.o), iadd(d.off, ic(o)), k, x)
            return
        if so.arr is None and isc(s.off) and do.arr is None:
            for o, k, x in self.range_parts(so, s.off.args[0], sz):
                self.put(st, self.obj(st, d.o), iadd(d.off, ic(o)), k, x)
            return
        if so.arr is None and not isc(s.off):
            for k in range(0, sz, 8):
                m = min(8, sz - k)
                v = self.load_obj(st, so, iadd(s.off, ic(k)), m, None)
                self.put(st, self.obj(st, d.o), iadd(d.off, ic(k)), m, v)
            return
        return self.copy_sym(st, d, s, n)

    def range_parts(self, o, a, sz):
        out = []
        for off in sorted(x for x in o.cells if x < a + sz and x + o.cells[x][0] > a):
            s, v = o.cells[off]
            lo, hi = max(off, a), min(off + s, a + sz)
            if lo == off and hi == off + s:
                out.append((off - a, s, v))
            else:
                out.append((lo - a, hi - lo, self.slice_val(v, s, lo - off, hi - lo)))
        return out

    def copy_sym(self, st, d, s, n):
        if n.lo is None or n.lo < 0:
            self.oblige(st, ile(ic(0), n), 'copy length is not negative', kind='memory')
        if d.o <= 0 or s.o <= 0:
            self.oblige(st, ieq(n, ic(0)), 'valid pointers for a non-empty copy', kind='memory')
            return
        so, do = self.obj(st, s.o), self.obj(st, d.o)
        nz = Not(ieq(n, ic(0)))
        for p, o, w in ((s, so, 'copy source'), (d, do, 'copy destination')):
            self.oblige(st, Or(Not(nz), And(ile(ic(0), p.off), ile(iadd(p.off, n), o.size))), 'in-bounds %s %s' % (w, o.name), kind='memory')
        if do.arr is None and do.cells and isc(d.off):
            # few bytes into a structured object: one by one
            room = do.size.args[0] - d.off.args[0] if isc(do.size) else 64
            hi = min(x for x in (n.hi if n.hi is not None else 64, room, 64))
            sc = smt.entails_quick(st.pc, ile(n, ic(hi)), 2000)
            while sc and hi > 0 and smt.entails_quick(st.pc, ile(n, ic(hi - 1)), 2000):
                hi -= 1
            if sc and hi <= 32:
                new = []
                for k in range(hi):
                    c = ilt(ic(k), n)
                    s2 = st.fork()
                    s2.assume(c)
                    v = self.toint(self.load_obj(s2, self.obj(s2, s.o), iadd(s.off, ic(k)), 1, ['i', 8, 1]), 8)
                    old = self.load_obj(st, self.obj(st, d.o), iadd(d.off, ic(k)), 1, ['i', 8, 1])
                    if old is not self.U:
                        v = Ite(c, v, self.toint(old, 8))
                    new.append(v)
                for k, v in enumerate(new):
                    self.put(st, self.obj(st, d.o), iadd(d.off, ic(k)), 1, v)
                return
        if so.arr is None:
            # a small structured source: turn into an array of its cell size
            sizes = set(c[0] for c in so.cells.values())
            if len(sizes) == 1:
                es = sizes.pop()
            else:
                es = 1
            kind = ('f', None, None, True) if any(isinstance(c[1], self.F) for c in so.cells.values()) else ('i', es * 8, -(1 << (es * 8 - 1)), (1 << (es * 8 - 1)) - 1)
            src = _e().Arr('base', 'undef!src!%d' % so.id, kind)
            for a, (cs, v) in sorted(so.cells.items()):
                if cs != es or a % es or isinstance(v, (self.P, self.PU)):
                    # mixed content: havoc the destination
                    return self.havoc_obj(st, d, n)
                if v is self.U:
                    continue
                src = _e().Arr('store', (src, ic(a // es), v), kind)
        else:
            src, es = so.arr, so.es
        do = self.wobj(st, d.o)
        if do.arr is None:
            if do.cells and not isc(do.size) and es == 1 and so.arr is not None:
                self.byte_mode(do)
        if do.arr is None:
            if do.cells and any(c[0] != es or a % es for a, c in do.cells.items()):
                return self.havoc_obj(st, d, n)
            self.array_mode(do, es, _e().Arr('base', 'undef!dst!%d!%d' % (do.id, len(self.obls)), src.ty))
        if do.es != es:
            raise self.Unsupported('copy between arrays of different element size')
        i0 = self.index_of(st, d.off, es)
        j0 = self.index_of(st, s.off, es)
        m = self.index_of(st, n, es)
        if i0 is None or j0 is None or m is None:
            raise self.Unsupported('misaligned symbolic copy')
        do.arr = _e().Arr('copy', (do.arr, i0, iadd(i0, m), src, j0), do.arr.ty)

    def havoc_obj(self, st, d, n):
        do = self.wobj(st, d.o)
        if do.arr is not None:
            do.arr = _e().Arr('base', 'havoc!%d!%d' % (do.id, self.next_obj), do.arr.ty)
            self.next_obj += 1
            return
        if isc(d.off) and do.cells and min(do.cells) < d.off.args[0]:
            raise self.Unsupported('symbolic copy into a structured object')
        do.cells = {}
        do.arr = _e().Arr('base', 'havoc!%d!%d' % (do.id, self.next_obj), ('i', 8, -128, 127))
        do.es = 1
        self.next_obj += 1

    def memset(self, st, d, v, n):
        if isc(n) and n.args[0] == 0:
            return
        d = self.single(st, self.coerce(d, self.ptrty()))
        if isc(n):
            sz = n.args[0]
            o = self.check_access(st, d, sz, 'memset')
            if o.arr is None and isc(d.off):
                if not isc(v):
                    for k in range(sz):
                        self.put(st, self.obj(st, d.o), iadd(d.off, ic(k)), 1, v)
                    return
                b = v.args[0] & 255
                o = self.wobj(st, d.o)
                a, end = d.off.args[0], d.off.args[0] + sz
                # big blocks: lay out 8-byte cells aligned with the object
                while a < end:
                    k = 8 if a % 8 == 0 and end - a >= 8 else 4 if a % 4 == 0 and end - a >= 4 else 1
                    x = int.from_bytes(bytes([b]) * k, 'little', signed=True)
                    if k == 8 and b == 255:
                        x = -1
                    self.put_cell(o, a, k, ic(x))
                    a += k
                return
            if o.arr is not None and isc(v) and v.args[0] == 0 and sz % o.es == 0 and sz // o.es <= 16:
                z = _e().F0 if o.arr.ty[0] == 'f' else ic(0)
                for k in range(sz // o.es):
                    self.put(st, self.obj(st, d.o), iadd(d.off, ic(k * o.es)), o.es, z)
                return
        if d.o <= 0:
            self.oblige(st, ieq(n, ic(0)), 'valid pointer for a non-empty memset', kind='memory')
            return
        o = self.obj(st, d.o)
        self.oblige(st, Or(ieq(n, ic(0)), And(ile(ic(0), d.off), ile(iadd(d.off, n), o.size))), 'in-bounds memset of ' + o.name, kind='memory')
        o = self.wobj(st, d.o)
        if o.arr is None:
            if o.cells:
                raise self.Unsupported('symbolic memset into a structured object')
            c, it = tm._lin(n)
            es = 8 if c % 8 == 0 and all(k % 8 == 0 for _, k in it) else 1
            if not (isc(v) and v.args[0] == 0):
                es = 1
            ty = ('f', None, None, True) if es == 8 else ('i', 8, -128, 127)
            self.array_mode(o, es, _e().Arr('base', 'undef!ms!%d' % o.id, ty))
        i0 = self.index_of(st, d.off, o.es)
        m = self.index_of(st, n, o.es)
        if i0 is None or m is None:
            raise self.Unsupported('misaligned memset')
        if isc(v) and v.args[0] == 0:
            z = _e().F0 if o.arr.ty[0] == 'f' else ic(0)
        elif o.es == 1:
            z = v
        else:
            raise self.Unsupported('non-zero memset of wide array')
        o.arr = _e().Arr('fill', (o.arr, i0, iadd(i0, m), z), o.arr.ty)

    # ------------------------------------------------------------ exceptions
    def ti_name(self, p):
        if isinstance(p, self.PU):
            raise self.Unsupported('guarded type info')
        if p.o == 0:
            return None
        return self.obj_name(p.o)

    def obj_name(self, i):
        for n, k in self.gobj.items():
            if k == i:
                return n
        return self.gmem[i].name

    def bases(self, name):
        if name in EXC_BASES:
            return EXC_BASES[name]
        g = self.m.globals.get(name)
        if g and g[4] and g[4][0] == 'agg' and len(g[4][2]) >= 3:
            b = g[4][2][2]
            if b[0] == 'g':
                return [b[1]]
        return []

    def derives(self, a, b):
        if a == b:
            return True
        return any(self.derives(x, b) for x in self.bases(a))

    def ti_match(self, ti, name):
        if isinstance(ti, self.PU):
            return Or(*[And(g, self.ti_match(p, name)) for g, p in ti.alts])
        return tm.B(self.derives(self.obj_name(ti.o), name))

    def typeid_of(self, name):
        if name not in self.typeid:
            self.typeid[name] = len(self.typeid) + 1
        return self.typeid[name]

    def resume_val(self, v, st):
        return (v[0], self.exc_ti_of(v[0]))

    def exc_ti_of(self, p):
        if isinstance(p, self.PU):
            return _e().mkpu([(g, self.exc_ti[q.o]) for g, q in p.alts])
        return self.exc_ti[p.o]

    def n_cxa_alloc(self, st, args, name, rty):
        return self.P(self.new_obj(st, self.toint(args[0], 64), 'exc', 'exception'), ic(0))

    def n_cxa_throw(self, st, args, name, rty):
        p = args[0]
        self.exc_ti[p.o] = args[1]
        return [('throw', (p, args[1]), st)]

    def n_begin_catch(self, st, args, name, rty):
        st.caught = st.caught + (args[0],)
        return args[0]

    def n_end_catch(self, st, args, name, rty):
        st.caught = st.caught[:-1]
        return None

    def n_rethrow(self, st, args, name, rty):
        p = st.caught[-1]
        return [('throw', (p, self.exc_ti_of(p)), st)]

    def throw_std(self, st, tiname):
        i = self.global_obj(tiname)
        p = self.P(self.new_obj(st, ic(16), 'exc', 'exception'), ic(0))
        ti = self.P(i, ic(0))
        self.exc_ti[p.o] = ti
        return [('throw', (p, ti), st)]

    def n_std_throw(self, st, args, name, rty):
        for k, ti in THROWERS:
            if k in name:
                return self.throw_std(st, ti)
        raise self.Unsupported(name)

    def n_nop(self, st, args, name, rty):
        return None

    def n_self(self, st, args, name, rty):
        return args[0]

    def n_terminate(self, st, args, name, rty):
        self.oblige(st, FALSE, 'std::terminate is not reached', kind='memory')
        raise self.PathEnd()

    def n_guard_acquire(self, st, args, name, rty):
        o = self.obj(st, args[0].o)
        c = o.cells.get(args[0].off.args[0])
        v = self.gather(o, args[0].off.args[0], 1)
        if isinstance(v, T) and isc(v) and v.args[0] == 1:
            return ic(0)
        return ic(1)

    def n_guard_release(self, st, args, name, rty):
        o = self.wobj(st, args[0].o)
        self.put_cell(o, args[0].off.args[0], 1, ic(1))
        return None

    def n_zero(self, st, args, name, rty):
        return ic(0)

    def n_tolower(self, st, args, name, rty):
        x = self.toint(args[0], 32)
        if 'toupper' in name:
            c = And(ile(ic(97), x), ile(x, ic(122)))
            return Ite(c, iadd(x, ic(-32)), x)
        c = And(ile(ic(65), x), ile(x, ic(90)))
        return Ite(c, iadd(x, ic(32)), x)

    def n_dynamic_cast(self, st, args, name, rty):
        raise self.Unsupported('dynamic_cast')

    # ------------------------------------------------------------ vf_* harness interface
    def cstr(self, st, p):
        o = self.obj(st, p.o)
        s = []
        a = p.off.args[0]
        while True:
            v = o.cells[a][1].args[0]
            if v == 0:
                return ''.join(s)
            s.append(chr(v & 255))
            a += 1

    def iname(self, st, p):
        n = self.cstr(st, p)
        key = (n, st.tag)
        k = self.input_count.get(key)
        if k is None:
            # a case split made after this name was first used
            k = max([self.input_count.get((n, st.tag[:j]), 0) for j in range(len(st.tag))] or [0])
        self.input_count[key] = k + 1
        return n if k == 0 else '%s#%d' % (n, k)

    def ivar(self, n, sort, lo=None, hi=None):
        # the range is part of the identity: equal names with other ranges differ
        if sort == 'B':
            return tm.var('in!' + n, 'B')
        return tm.var('in!%s!%s!%s' % (n, lo, hi), sort, lo, hi)

    def v_real(self, st, args, name, rty):
        n = self.iname(st, args[0])
        lo, hi = args[1].r.args[0], args[2].r.args[0]
        v = self.ivar(n, 'R', lo, hi)
        nan = tm.var('in!' + n + '?nan', 'B') if name == 'vf_real_or_nan' else FALSE
        r = self.F(v, nan)
        self.inputs.append((n, 'real', r))
        return r

    def v_int(self, st, args, name, rty):
        n = self.iname(st, args[0])
        lo, hi = args[1].args[0], args[2].args[0]
        if lo == hi:
            return ic(lo)
        v = self.ivar(n, 'I', lo, hi)
        self.inputs.append((n, 'int', v))
        return v

    def v_bool(self, st, args, name, rty):
        n = self.iname(st, args[0])
        v = tm.var('in!' + n, 'B')
        self.inputs.append((n, 'bool', v))
        return v

    def v_split(self, st, args, name, rty):
        """case split of an integer input into concrete values (exhaustive)"""
        n = self.iname(st, args[0])
        lo, hi = args[1].args[0], args[2].args[0]
        v = self.ivar(n, 'I', lo, hi)
        self.inputs.append((n, 'int', v))
        outs = []
        for k in range(lo, hi + 1):
            s2 = st.fork() if k < hi else st
            s2.assume(ieq(v, ic(k)))
            s2.tag = s2.tag + ((n, k),)
            outs.append(('ret', ic(k), s2))
        return outs

    def v_assume(self, st, args, name, rty):
        c = self.coerce_bool(args[0])
        if c is FALSE:
            raise self.PathEnd()
        if not smt.feasible(st.pc, c, 2000):
            raise self.PathEnd()
        st.assume(c)
        return None

    def coerce_bool(self, v):
        if v is self.U:
            return self.fresh_int(1)
        if v.sort == 'I':
            return Not(ieq(v, ic(0)))
        return v

    def v_assert(self, st, args, name, rty):
        self.oblige(st, self.coerce_bool(args[0]), self.cstr(st, args[1]))
        return None

    def v_close(self, st, args, name, rty):
        a, b, tol = args[0], args[1], args[2]
        a = self.fresh_f() if a is self.U else a
        b = self.fresh_f() if b is self.U else b
        msg = self.cstr(st, args[3])
        t = tol.r.args[0]
        d = rsub(a.r, b.r)
        within = TRUE if d is tm.R0 else And(rle(d, rc(t)), rle(rc(-t), d))
        if name == 'vf_close':
            side = And(Not(a.n), Not(b.n))
            goal = And(side, within)
            close = (a.r, b.r, t, side)
        else:
            side = Iff(a.n, b.n)
            goal = And(side, Or(a.n, within))
            close = (Ite(a.n, tm.R0, a.r), Ite(a.n, tm.R0, b.r), t, side)
        self.oblige(st, goal, msg, close)
        return None

    def v_close2(self, st, args, name, rty):
        a, b, c, tol = args[:4]
        t = tol.r.args[0]
        goals = []
        closes = []
        for x in (b, c):
            d = rsub(a.r, x.r)
            side = And(Not(a.n), Not(x.n))
            goals.append(And(side, rle(d, rc(t)), rle(rc(-t), d)))
            closes.append((a.r, x.r, t, side))
        self.oblige(st, Or(*goals), self.cstr(st, args[4]), closes)
        return None

    def v_fill(self, st, args, name, rty):
        """vf_fill_real(double* p, long n, const char* name, lo, hi, nanok)"""
        p = self.single(st, args[0])
        n = self.toint(args[1], 64)
        nm = self.iname(st, args[2])
        lo, hi = args[3].r.args[0], args[4].r.args[0]
        nanok = self.toint(args[5], 32).args[0] != 0
        es = 8 if name == 'vf_fill_real' else 4
        if p.o <= 0:
            return None
        o = self.wobj(st, p.o)
        base = _e().Arr('base', 'in!%s!%s!%s' % (nm, lo, hi), ('f', lo, hi, nanok))
        if not isc(n) or n.args[0] > 4096:
            if not (isc(p.off) and p.off.args[0] == 0):
                raise self.Unsupported('fill at an offset')
            o.cells = {}
            o.arr = base
            o.es = es
            self.inputs.append((nm, 'realarray', base))
            return None
        for i in range(n.args[0]):
            v = self.ivar('%s[%d]' % (nm, i), 'R', lo, hi)
            f = self.F(v, tm.var('in!%s[%d]?nan' % (nm, i), 'B') if nanok else FALSE)
            self.inputs.append(('%s[%d]' % (nm, i), 'real', f))
            self.put(st, self.obj(st, p.o), iadd(p.off, ic(i * es)), es, f)
        return None

    def v_fill_int(self, st, args, name, rty):
        """vf_fill_int(void* p, long n, const char* name, lo, hi, elemsize)"""
        p = self.single(st, args[0])
        n = self.toint(args[1], 64)
        nm = self.iname(st, args[2])
        lo, hi = args[3].args[0], args[4].args[0]
        es = self.toint(args[5], 32).args[0]
        if p.o <= 0:
            return None
        o = self.wobj(st, p.o)
        if not isc(n) or n.args[0] > 4096:
            o.cells = {}
            o.arr = _e().Arr('base', 'in!%s!%s!%s' % (nm, lo, hi), ('i', es * 8, lo, hi))
            o.es = es
            self.inputs.append((nm, 'intarray', o.arr))
            return None
        for i in range(n.args[0]):
            v = self.ivar('%s[%d]' % (nm, i), 'I', lo, hi)
            self.inputs.append(('%s[%d]' % (nm, i), 'int', v))
            self.put(st, self.obj(st, p.o), iadd(p.off, ic(i * es)), es, v)
        return None

    def v_cover(self, st, args, name, rty):
        self.covers.append((self.cstr(st, args[0]), smt.feasible(st.pc, TRUE) if not st.pc else smt.feasible(st.pc[:-1], st.pc[-1], 5000)))
        return None

    def v_uf(self, st, args, name, rty):
        """vf_uf1(name, x) etc.: uninterpreted real function of real arguments"""
        nm = self.cstr(st, args[0])
        return self.F(tm.app('uf!' + nm, tuple(a.r if isinstance(a, self.F) else self.toint(a, 64) for a in args[1:]), 'R'), FALSE)

    def v_symbolic(self, st, args, name, rty):
        return TRUE if self.m.types[rty][1] == 1 else ic(1)

    def v_tag(self, st, args, name, rty):
        return None

    # ------------------------------------------------------------ misc library models
    def n_list_hook(self, st, args, name, rty):
        raise self.Unsupported(name)

    def n_start_thread(self, st, args, name, rty):
        """std::thread: run the body to completion here (see assumptions)"""
        # args: this, unique_ptr<_State>*, depend
        pty = self.ptrty()
        stp = self.load(st, args[1], pty)
        vt = self.load(st, stp, pty)
        run = self.load(st, self.P(vt.o, iadd(vt.off, ic(16))), pty)
        fn = self.objfn[run.o]
        self.thread_count = getattr(self, 'thread_count', 0) + 1
        self.store(st, args[1], self.P(0, ic(0)), pty)
        outs = self.call_function(fn, [stp], st)
        res = []
        for k, v, s in outs:
            if k == 'throw':
                self.oblige(s, FALSE, 'no exception escapes a worker thread', kind='memory')
                continue
            # non-zero thread id
            o = self.wobj(s, args[0].o)
            self.put_cell(o, args[0].off.args[0], 8, ic(self.thread_count))
            res.append(('ret', None, s))
        return res

    def n_join(self, st, args, name, rty):
        o = self.wobj(st, args[0].o)
        self.put_cell(o, args[0].off.args[0], 8, ic(0))
        return None

    def n_hwc(self, st, args, name, rty):
        n = 'hardware_concurrency'
        k = self.input_count.get(n, 0)
        v = tm.var('in!' + n, 'I', 0, 1024)
        if not k:
            self.inputs.append((n, 'int', v))
        self.input_count[n] = 1
        return v

    def n_eptr_current(self, st, args, name, rty):
        # sret exception_ptr holding the caught object
        o = self.wobj(st, args[0].o)
        self.put_cell(o, args[0].off.args[0], 8, st.caught[-1])
        return None

    def n_eptr_rethrow(self, st, args, name, rty):
        p = self.load(st, args[0], self.ptrty())
        return [('throw', (p, self.exc_ti_of(p)), st)]


NATIVE = {}
for _n in ('sin', 'cos', 'tan', 'atan', 'atan2', 'acos', 'asin', 'sqrt', 'pow', 'exp', 'log', 'fmod', 'remainder', 'floor', 'ceil',
           'round', 'trunc', 'rint', 'nearbyint', 'fabs', 'hypot', 'sinf', 'cosf', 'sqrtf', 'atan2f', 'floorf', 'fabsf', 'fmodf', 'remainderf', 'roundf', 'fmax', 'fmin', 'fmaxf', 'fminf'):
    NATIVE[_n] = 'n_math'
for _n in ('_Znwm', '_Znam', 'malloc', '_ZnwmRKSt9nothrow_t', '_ZnwmSt11align_val_t'):
    NATIVE[_n] = 'n_new'
for _n in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t'):
    NATIVE[_n] = 'n_delete'
NATIVE.update({'remquo': 'n_remquo', 'remquof': 'n_remquo',
    'calloc': 'n_calloc', 'memcpy': 'n_memcpy', 'memmove': 'n_memcpy', 'memset': 'n_memset', 'strlen': 'n_strlen',
    'memcmp': 'n_memcmp', 'bcmp': 'n_memcmp', 'memchr': 'n_memchr',
    '__cxa_allocate_exception': 'n_cxa_alloc', '__cxa_free_exception': 'n_nop', '__cxa_throw': 'n_cxa_throw',
    '__cxa_begin_catch': 'n_begin_catch', '__cxa_end_catch': 'n_end_catch', '__cxa_rethrow': 'n_rethrow',
    '__cxa_guard_acquire': 'n_guard_acquire', '__cxa_guard_release': 'n_guard_release', '__cxa_guard_abort': 'n_nop',
    '__cxa_atexit': 'n_zero', '_ZSt9terminatev': 'n_terminate', '__clang_call_terminate': 'n_terminate', 'abort': 'n_terminate',
    '__cxa_pure_virtual': 'n_terminate', '__dynamic_cast': 'n_dynamic_cast', 'tolower': 'n_tolower', 'toupper': 'n_tolower',
    '_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE': 'n_start_thread',
    '_ZNSt6thread4joinEv': 'n_join', '_ZNSt6thread20hardware_concurrencyEv': 'n_hwc',
    '_ZNSt6thread6_StateD2Ev': 'n_nop',
    '_ZSt17current_exceptionv': 'n_eptr_current',
    '_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE': 'n_eptr_rethrow',
    '_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv': 'n_nop',
    '_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv': 'n_nop',
    'vf_real': 'v_real', 'vf_real_or_nan': 'v_real', 'vf_int': 'v_int', 'vf_bool': 'v_bool', 'vf_split': 'v_split',
    'vf_assume': 'v_assume', 'vf_assert': 'v_assert', 'vf_close': 'v_close', 'vf_close2': 'v_close2', 'vf_same': 'v_close', 'vf_fill_real': 'v_fill',
    'vf_fill_float': 'v_fill', 'vf_fill_int': 'v_fill_int', 'vf_cover': 'v_cover', 'vf_uf1': 'v_uf', 'vf_uf2': 'v_uf', 'vf_uf3': 'v_uf',
    'vf_symbolic': 'v_symbolic',
})
THROWERS = [
    ('__throw_length_error', '_ZTISt12length_error'), ('__throw_bad_array_new_length', '_ZTISt20bad_array_new_length'),
    ('__throw_bad_alloc', '_ZTISt9bad_alloc'), ('__throw_out_of_range', '_ZTISt12out_of_range'),
    ('__throw_logic_error', '_ZTISt11logic_error'), ('__throw_invalid_argument', '_ZTISt16invalid_argument'),
    ('__throw_runtime_error', '_ZTISt13runtime_error'), ('__throw_bad_function_call', '_ZTISt17bad_function_call'),
    ('__throw_system_error', '_ZTISt12system_error'), ('__throw_bad_cast', '_ZTISt8bad_cast'),
    ('__throw_range_error', '_ZTISt11range_error'),
]
NATIVE_DEM = [
    ('std::__throw_', 'n_std_throw'),
    ('std::invalid_argument::', 'n_nop'), ('std::out_of_range::', 'n_nop'), ('std::runtime_error::', 'n_nop'),
    ('std::logic_error::', 'n_nop'), ('std::bad_alloc::', 'n_nop'), ('std::exception::', 'n_nop'), ('std::length_error::', 'n_nop'),
    ('std::domain_error::', 'n_nop'), ('std::ios_base::Init::', 'n_nop'),
    ('std::locale::', 'n_nop'),
]
