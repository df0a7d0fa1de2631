"""Forward symbolic execution of LLVM IR with state merging (VC generation).

The IR is compiled from /repo's working tree on every run.  Machine integers
are integers with explicit wrap-around, doubles/floats are mathematical reals
plus a not-a-number flag, memory is a set of objects holding typed cells.
"""
from fractions import Fraction
import heapq
import json
import math
import re
import sys
import time

from . import terms as tm
from . import smt
from .terms import (T, TRUE, FALSE, Not, And, Or, Ite, Iff, ic, iadd, isub, iscale, imul, idiv, imod, ile, ilt, ieq,
                    rc, radd, rsub, rmul, rdiv, rneg, rle, rlt, req, toreal, isc)

sys.setrecursionlimit(200000)


class Unsupported(Exception):
    pass


class Undecided(Exception):
    pass


# --------------------------------------------------------------- values
class F:
    __slots__ = ('r', 'n')

    def __init__(self, r, n=FALSE):
        self.r = r
        self.n = n

    def __repr__(self):
        return "F(%r%s)" % (self.r, "" if self.n is FALSE else ",nan=%r" % self.n)


class P:
    __slots__ = ('o', 'off')

    def __init__(self, o, off):
        self.o = o
        self.off = off

    def __repr__(self):
        return "P(%s,%r)" % (self.o, self.off)


class PU:
    """guarded alternatives [(cond, P)]; the last alternative is the default"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return "PU(%r)" % (self.alts,)


class UndefT:
    def __repr__(self):
        return "undef"


U = UndefT()


class Raw:
    """parts: [(off, size, value)] covering [0,size)"""
    __slots__ = ('parts', 'size')

    def __init__(self, parts, size):
        self.parts = parts
        self.size = size

    def __repr__(self):
        return "Raw(%r)" % (self.parts,)


I0 = ic(0)
NULL = P(0, I0)
F0 = F(tm.R0)
QNAN = F(tm.R0, TRUE)


# --------------------------------------------------------------- arrays
class Arr:
    """functional arrays of elements (F or integer terms)"""
    __slots__ = ('k', 'a', 'ty')

    def __init__(self, k, a, ty):
        self.k = k      # base | store | ite | copy | fill
        self.a = a
        self.ty = ty    # ('f', lo, hi, nan) or ('i', bits, lo, hi)

    def select(self, i):
        k = self.k
        if k == 'base':
            nm = self.a
            if self.ty[0] == 'f':
                r = tm.app(nm, (i,), 'R', self.ty[1], self.ty[2])
                n = tm.app(nm + '?nan', (i,), 'B') if self.ty[3] else FALSE
                return F(r, n)
            return tm.app(nm, (i,), 'I', self.ty[2], self.ty[3])
        if k == 'store':
            b, j, v = self.a
            c = ieq(i, j)
            if c is TRUE:
                return v
            o = b.select(i)
            if c is FALSE:
                return o
            return merge_val(c, v, o)
        if k == 'ite':
            c, x, y = self.a
            return merge_val(c, x.select(i), y.select(i))
        if k == 'copy':
            b, lo, hi, src, so = self.a   # [lo,hi) taken from src at i-lo+so
            c = And(ile(lo, i), ilt(i, hi))
            if c is TRUE:
                return src.select(iadd(isub(i, lo), so))
            o = b.select(i)
            if c is FALSE:
                return o
            return merge_val(c, src.select(iadd(isub(i, lo), so)), o)
        if k == 'fill':
            b, lo, hi, v = self.a
            c = And(ile(lo, i), ilt(i, hi))
            if c is TRUE:
                return v
            o = b.select(i)
            if c is FALSE:
                return o
            return merge_val(c, v, o)
        raise Unsupported('array ' + k)


def merge_val(c, a, b):
    """value that is a when c, b otherwise; None if not mergeable"""
    if a is b:
        return a
    if a is U:
        return b
    if b is U:
        return a
    if isinstance(a, T):
        if isinstance(b, T):
            if a.sort == b.sort:
                return Ite(c, a, b)
            raise Unmergeable()
        if isinstance(b, F) and isc(a) and a.args[0] == 0:
            return merge_val(c, F0, b)
        raise Unmergeable()
    if isinstance(a, F):
        if isinstance(b, T) and isc(b) and b.args[0] == 0:
            b = F0
        if not isinstance(b, F):
            raise Unmergeable()
        if a.r is b.r and a.n is b.n:
            return a
        # the real part of a NaN is irrelevant
        if a.n is TRUE and b.n is TRUE:
            return a
        ra, rb = a.r, b.r
        if a.n is TRUE:
            return F(rb, Ite(c, TRUE, b.n))
        if b.n is TRUE:
            return F(ra, Ite(c, a.n, TRUE))
        return F(Ite(c, ra, rb), Ite(c, a.n, b.n))
    if isinstance(a, (P, PU)):
        if not isinstance(b, (P, PU)):
            if isinstance(b, T) and isc(b) and b.args[0] == 0:
                b = NULL
            else:
                raise Unmergeable()
        if isinstance(a, P) and isinstance(b, P) and a.o == b.o:
            if a.off is b.off:
                return a
            return P(a.o, Ite(c, a.off, b.off))
        alts = []
        for g, p in (a.alts if isinstance(a, PU) else [(TRUE, a)]):
            alts.append((And(c, g), p))
        nc = Not(c)
        for g, p in (b.alts if isinstance(b, PU) else [(TRUE, b)]):
            alts.append((And(nc, g), p))
        return mkpu(alts)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_val(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Raw) and isinstance(b, Raw) and [(o, s) for o, s, _ in a.parts] == [(o, s) for o, s, _ in b.parts]:
        return Raw([(o, s, merge_val(c, x, y)) for (o, s, x), (_, _, y) in zip(a.parts, b.parts)], a.size)
    raise Unmergeable()


def mkpu(alts):
    m = {}
    order = []
    for g, p in alts:
        if g is FALSE:
            continue
        k = (p.o, p.off.id)
        if k in m:
            m[k] = (Or(m[k][0], g), p)
        else:
            m[k] = (g, p)
            order.append(k)
    if len(order) == 1:
        return m[order[0]][1]
    # same object, different offsets: fold into one
    byobj = {}
    oo = []
    for k in order:
        g, p = m[k]
        if p.o in byobj:
            g0, p0 = byobj[p.o]
            byobj[p.o] = (Or(g0, g), P(p.o, Ite(g, p.off, p0.off)))
        else:
            byobj[p.o] = (g, p)
            oo.append(p.o)
    if len(oo) == 1:
        return byobj[oo[0]][1]
    return PU([byobj[o] for o in oo])


class Unmergeable(Exception):
    pass


# --------------------------------------------------------------- memory
class Obj:
    __slots__ = ('id', 'size', 'cells', 'arr', 'es', 'kind', 'name', 'tok', 'fn')

    def __init__(self, id, size, kind, name):
        self.id = id
        self.size = size     # integer term
        self.cells = {}      # off -> (size, value)
        self.arr = None
        self.es = 0
        self.kind = kind
        self.name = name
        self.tok = None
        self.fn = None

    def clone(self, tok):
        o = Obj(self.id, self.size, self.kind, self.name)
        o.cells = dict(self.cells)
        o.arr = self.arr
        o.es = self.es
        o.tok = tok
        o.fn = self.fn
        return o


class State:
    __slots__ = ('pc', 'facts', 'mem', 'tok', 'caught', 'freed', 'tag')

    def __init__(self):
        self.pc = []
        self.facts = set()
        self.mem = {}
        self.tok = object()
        self.caught = ()
        self.freed = frozenset()
        self.tag = ()      # concrete case-split choices: never merged across

    def fork(self):
        s = State()
        s.pc = list(self.pc)
        s.facts = set(self.facts)
        s.mem = dict(self.mem)
        self.tok = object()
        s.caught = self.caught
        s.freed = self.freed
        s.tag = self.tag
        return s

    def assume(self, c):
        if c is TRUE or c.id in self.facts:
            return
        if c.op == 'and':
            for x in c.args:
                self.assume(x)
            return
        self.pc.append(c)
        self.facts.add(c.id)

    def has(self, c):
        if c is TRUE:
            return True
        if c.id in self.facts:
            return True
        if c.op == 'and':
            return all(self.has(x) for x in c.args)
        if c.op == 'or':
            return any(self.has(x) for x in c.args)
        return False


def merge_states(a, b):
    """-> (merged state, cond selecting a) ; raises Unmergeable"""
    if a.tag != b.tag or a.caught != b.caught:
        raise Unmergeable()
    n = 0
    la, lb = a.pc, b.pc
    m = min(len(la), len(lb))
    while n < m and la[n] is lb[n]:
        n += 1
    ra, rb = la[n:], lb[n:]
    # drop facts present on both sides
    sa = set(t.id for t in ra)
    sb = set(t.id for t in rb)
    both = [t for t in ra if t.id in sb]
    ra = [t for t in ra if t.id not in sb]
    rb = [t for t in rb if t.id not in sa]
    c = And(*ra)
    cb = And(*rb)
    if c is TRUE and cb is TRUE:
        raise Unmergeable()
    if c is TRUE:
        c = Not(cb)
        ra = [c]
    # choose the smaller discriminating literal when the sides are exclusive
    sel = c
    if Not(c) is not cb:
        for t in ra:
            if any(Not(t) is u for u in rb):
                sel = t
                break
        # otherwise c itself selects: the paths partition the behaviours
    s = State()
    s.pc = la[:n] + both
    s.facts = set(t.id for t in s.pc)
    s.assume(Or(c, cb))
    s.caught = a.caught
    s.tag = a.tag
    s.freed = a.freed | b.freed
    mem = dict(a.mem)
    for k, ob in b.mem.items():
        oa = mem.get(k)
        if oa is None:
            mem[k] = ob
        elif oa is not ob:
            mem[k] = merge_obj(sel, oa, ob)
    s.mem = mem
    a.tok = object()
    b.tok = object()
    return s, sel


def merge_obj(c, a, b):
    if a.arr is not None or b.arr is not None:
        if a.arr is None or b.arr is None or a.es != b.es:
            raise Unmergeable()
        o = a.clone(None)
        if a.arr is not b.arr:
            o.arr = Arr('ite', (c, a.arr, b.arr), a.arr.ty)
        return o
    if a.size is not b.size:
        raise Unmergeable()
    o = Obj(a.id, a.size, a.kind, a.name)
    o.fn = a.fn
    cells = {}
    for off, (sz, v) in a.cells.items():
        w = b.cells.get(off)
        if w is None:
            cells[off] = (sz, v)
        elif w[0] != sz:
            raise Unmergeable()
        else:
            try:
                cells[off] = (sz, v if v is w[1] else merge_val(c, v, w[1]))
            except Unmergeable:
                # incompatible contents (different types): treat as undefined
                cells[off] = (sz, Bad)
    for off, w in b.cells.items():
        if off not in cells:
            cells[off] = w
    o.cells = cells
    return o


class BadT:
    def __repr__(self):
        return "bad"


Bad = BadT()


# --------------------------------------------------------------- functions
class Func:
    __slots__ = ('name', 'dem', 'ret', 'nargs', 'argt', 'byval', 'blocks', 'loops', 'wto', 'live', 'succ', 'phis',
                 'file', 'line', 'headers', 'inl', 'nphi')

    def __init__(self, d):
        self.name = d['name']
        self.dem = d['dem']
        self.ret = d['ret']
        self.nargs = d['nargs']
        self.argt = d['argt']
        self.byval = d['byval']
        self.blocks = d['blocks']
        self.loops = d['loops']
        self.file = d.get('file')
        self.line = d.get('line')
        self.wto = None

    def prepare(self):
        n = len(self.blocks)
        self.succ = [self._succ(b) for b in self.blocks]
        self.headers = set(l[0] for l in self.loops if l)
        # weak topological order: loop bodies contiguous
        self.wto = [0] * n
        order = self._order(list(range(n)), 0, None)
        for i, b in enumerate(order):
            self.wto[b] = i
        # liveness
        use = []
        defs = []
        phiuse = [[] for _ in range(n)]
        for bi, b in enumerate(self.blocks):
            u, d = set(), set()
            for ins in b:
                if ins[0] == 'phi':
                    for v, pred in ins[3]:
                        if isinstance(v, int):
                            phiuse[pred].append(v)
                    d.add(ins[1])
                    continue
                for v in self._uses(ins):
                    if v not in d:
                        u.add(v)
                if ins[1] >= 0:
                    d.add(ins[1])
            use.append(u)
            defs.append(d)
        live = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for bi in range(n - 1, -1, -1):
                out = set(phiuse[bi])
                for s in self.succ[bi]:
                    out |= live[s]
                new = use[bi] | (out - defs[bi])
                if new != live[bi]:
                    live[bi] = new
                    ch = True
        self.live = live
        self.nphi = [sum(1 for i in b if i[0] == 'phi') for b in self.blocks]

    def _succ(self, b):
        t = b[-1]
        k = t[0]
        if k == 'br':
            return [t[2]]
        if k == 'cbr':
            return [t[3], t[4]]
        if k == 'switch':
            return [t[4]] + [x[1] for x in t[5]]
        if k == 'invoke':
            return [t[6], t[7]]
        return []

    def _uses(self, ins):
        k = ins[0]
        c = []

        def o(v):
            if isinstance(v, int) and not isinstance(v, bool):
                c.append(v)
        if k == 'bin':
            o(ins[4]); o(ins[5])
        elif k in ('icmp', 'fcmp'):
            o(ins[4]); o(ins[5])
        elif k == 'fneg':
            o(ins[3])
        elif k == 'select':
            o(ins[3]); o(ins[4]); o(ins[5])
        elif k == 'cast':
            o(ins[5])
        elif k == 'load':
            o(ins[3])
        elif k == 'store':
            o(ins[3]); o(ins[4])
        elif k == 'alloca':
            o(ins[3])
        elif k == 'gep':
            o(ins[2])
            if ins[3] != 'unsupported':
                for v in ins[4]:
                    o(v[0])
        elif k in ('call', 'invoke'):
            o(ins[3])
            for v in ins[4]:
                o(v)
        elif k == 'cbr':
            o(ins[2])
        elif k == 'switch':
            o(ins[3])
        elif k == 'ret':
            if len(ins) > 3:
                o(ins[2])
        elif k == 'resume':
            o(ins[2])
        elif k == 'extractvalue':
            o(ins[2])
        elif k == 'insertvalue':
            o(ins[3]); o(ins[4])
        elif k == 'extractelement':
            o(ins[2]); o(ins[3])
        elif k == 'insertelement':
            o(ins[3]); o(ins[4]); o(ins[5])
        elif k == 'shuffle':
            o(ins[3]); o(ins[4])
        elif k == 'freeze':
            o(ins[2])
        elif k == 'rmw':
            o(ins[4]); o(ins[5])
        elif k == 'cmpxchg':
            o(ins[3]); o(ins[4]); o(ins[5])
        return c

    def _order(self, blocks, depth, head):
        """blocks: in RPO; nodes at loop nesting `depth` are plain, deeper are grouped"""
        out = []
        done = set()
        inl = lambda b: list(reversed(self.loops[b]))  # outermost first
        groups = {}
        node = {}
        nodes = []
        for b in blocks:
            l = inl(b)
            if len(l) > depth:
                h = l[depth]
                if h not in groups:
                    groups[h] = []
                    nodes.append(('L', h))
                groups[h].append(b)
                node[b] = ('L', h)
            else:
                node[b] = ('B', b)
                nodes.append(('B', b))
        # topological order of the collapsed graph (back edges to head removed)
        bs = set(blocks)
        succs = {x: [] for x in nodes}
        indeg = {x: 0 for x in nodes}
        for b in blocks:
            for s in self.succ[b]:
                if s in bs and s != head and node[s] != node[b]:
                    if node[s] not in succs[node[b]]:
                        succs[node[b]].append(node[s])
                        indeg[node[s]] += 1
        pos = {x: i for i, x in enumerate(nodes)}
        ready = [pos[x] for x in nodes if indeg[x] == 0]
        heapq.heapify(ready)
        topo = []
        while ready:
            x = nodes[heapq.heappop(ready)]
            topo.append(x)
            for y in succs[x]:
                indeg[y] -= 1
                if indeg[y] == 0:
                    heapq.heappush(ready, pos[y])
        if len(topo) != len(nodes):   # irreducible: fall back to RPO
            topo = nodes
        if head is not None and node.get(head) in topo:
            topo.remove(node[head])
            topo.insert(0, node[head])
        for x in topo:
            if x[0] == 'B':
                out.append(x[1])
            else:
                out.extend(self._order(groups[x[1]], depth + 1, x[1]))
        return out


class Obl:
    __slots__ = ('name', 'where', 'pc', 'goal', 'close', 'kind', 'status', 'by', 'model', 'time', 'inputs')

    def __init__(self, name, where, pc, goal, close=None, kind='assert'):
        self.name = name
        self.where = where
        self.pc = pc
        self.goal = goal
        self.close = close
        self.kind = kind
        self.status = None
        self.by = None
        self.model = None
        self.time = 0.0
        self.inputs = None


class Module:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        self.funcs = {f['name']: Func(f) for f in d['funcs']}
        self.decls = d['decls']
        self.globals = {g[0]: g for g in d['globals']}
        self.sizes = {}
        self.bydem = {}
        for f in self.funcs.values():
            self.bydem.setdefault(f.dem, f)

    def size(self, ty):
        t = self.types[ty]
        k = t[0]
        if k in ('i', 'f', 'p'):
            return t[2]
        if k in ('s', 'a', 'v'):
            return t[1]
        raise Unsupported('sizeof ' + k)


from .natives import Natives  # noqa: E402


class Engine(Natives):
    def __init__(self, module, opts=None):
        self.m = module
        self.opts = opts or {}
        self.obls = []
        self.covers = []
        self.inputs = []          # (name, kind, value)
        self.input_count = {}
        self.next_obj = 1
        self.gobj = {}            # global name -> obj id
        self.fobj = {}            # func name -> obj id
        self.objfn = {}           # obj id -> function name
        self.addr = {}            # obj id -> address variable
        self.addrobj = {}         # address var id -> obj id
        self.gmem = {}            # pristine globals
        self.gconst = set()
        self.stack = []
        self.entered = {}         # functions executed: name -> count
        self.contracts = {}       # target function name -> stub name
        self.used_contracts = {}
        self.natives_used = {}
        self.deadline = None
        self.max_unroll = self.opts.get('max_unroll', 20000)
        self.check_overflow = self.opts.get('overflow', True)
        self.t_feas = self.opts.get('feas_ms', 400)
        self.curline = 0
        self.nsteps = 0
        self.undef_reads = 0
        self.typeid = {}
        self.trace = self.opts.get('trace', False)
        self.uninit_log = []
        self.nomerge = self.opts.get('nomerge', False)
        self.init_natives()

    # ------------------------------------------------------------ objects
    def new_obj(self, st, size, kind, name):
        i = self.next_obj
        self.next_obj += 1
        o = Obj(i, size if isinstance(size, T) else ic(size), kind, name)
        o.tok = st.tok
        st.mem[i] = o
        return i

    def global_obj(self, name):
        i = self.gobj.get(name)
        if i is not None:
            return i
        g = self.m.globals.get(name)
        i = self.next_obj
        self.next_obj += 1
        self.gobj[name] = i
        if g is None:
            o = Obj(i, ic(1 << 20), 'global', name)
            self.gmem[i] = o
            return i
        o = Obj(i, ic(g[1]), 'global', name)
        self.gmem[i] = o
        if g[2]:
            self.gconst.add(i)
        if g[4] is not None:
            self.init_cells(o, 0, g[3], g[4])
        elif name.startswith('__libc_single_threaded'):
            o.cells[0] = (1, ic(1))
        return i

    def init_cells(self, o, off, ty, c):
        t = self.m.types[ty]
        k = c[0]
        if k == 'zero':
            self.zero_cells(o, off, ty)
            return
        if k == 'undef':
            return
        if t[0] == 's':
            for (fo, ft), x in zip(t[2], c[2]):
                self.init_cells(o, off + fo, ft, x)
        elif t[0] in ('a', 'v'):
            for j, x in enumerate(c[2]):
                self.init_cells(o, off + j * t[4], t[3], x)
        else:
            o.cells[off] = (t[2], self.const(c, t))

    def zero_cells(self, o, off, ty):
        t = self.m.types[ty]
        if t[0] == 's':
            for fo, ft in t[2]:
                self.zero_cells(o, off + fo, ft)
        elif t[0] in ('a', 'v'):
            if t[2] > 100000:
                raise Unsupported('large zero initialiser')
            for j in range(t[2]):
                self.zero_cells(o, off + j * t[4], t[3])
        elif t[0] == 'i':
            o.cells[off] = (t[2], I0 if t[1] > 1 else FALSE)
        elif t[0] == 'f':
            o.cells[off] = (t[2], F0)
        elif t[0] == 'p':
            o.cells[off] = (t[2], NULL)

    def func_obj(self, name):
        i = self.fobj.get(name)
        if i is None:
            i = self.next_obj
            self.next_obj += 1
            self.fobj[name] = i
            self.objfn[i] = name
            o = Obj(i, ic(0), 'func', name)
            self.gmem[i] = o
        return i

    def obj(self, st, i):
        o = st.mem.get(i)
        if o is None:
            o = self.gmem.get(i)
            if o is None:
                raise Unsupported('access to a missing object %s' % i)
        return o

    def wobj(self, st, i):
        o = st.mem.get(i)
        if o is None:
            o = self.gmem.get(i)
            if o is None:
                raise Unsupported('write to a missing object %s' % i)
            o = o.clone(st.tok)
            st.mem[i] = o
        elif o.tok is not st.tok:
            o = o.clone(st.tok)
            st.mem[i] = o
        return o

    def addr_of(self, i):
        a = self.addr.get(i)
        if a is None:
            # objects and functions are 16-byte aligned
            v = tm.var('addr!%d' % i, 'I', 256, (1 << 43))
            self.addrobj[v.id] = i
            a = iscale(v, 16)
            self.addr[i] = a
        return a

    def p2i(self, p):
        if isinstance(p, PU):
            r = None
            for g, q in reversed(p.alts):
                v = self.p2i(q)
                r = v if r is None else Ite(g, v, r)
            return r
        if p.o == 0:
            return p.off
        return iadd(self.addr_of(p.o), p.off)

    def i2p(self, t):
        if isc(t):
            return P(0, t)
        if t.op == 'ite':
            return merge_val(t.args[0], self.i2p(t.args[1]), self.i2p(t.args[2]))
        c, it = tm._lin(t)
        base = [(x, k) for x, k in it if x.id in self.addrobj]
        if len(base) == 1 and base[0][1] == 16:
            return P(self.addrobj[base[0][0].id], isub(t, iscale(base[0][0], 16)))
        # address arithmetic on a case split
        for x, k in it:
            if x.op == 'ite' and k == 1:
                rest = isub(t, x)
                return merge_val(x.args[0], self.i2p(iadd(rest, x.args[1])), self.i2p(iadd(rest, x.args[2])))
        raise Unsupported('inttoptr of %r' % t)

    # ------------------------------------------------------------ constants
    def const(self, c, t=None):
        k = c[0]
        if k == 'i':
            if c[1] == 1:
                return tm.B(c[2] != 0)
            return ic(c[2])
        if k == 'f':
            return self.fconst(float.fromhex(c[1]))
        if k == 'null':
            return NULL
        if k == 'g':
            return self.gptr(c[1])
        if k == 'off':
            p = self.const(c[1])
            return P(p.o, iadd(p.off, ic(c[2])))
        if k == 'undef':
            t = self.m.types[c[1]]
            if t[0] == 's':
                return tuple(U for _ in t[2])
            if t[0] in ('v', 'a'):
                return tuple(U for _ in range(t[2]))
            return U
        if k == 'zero':
            t = self.m.types[c[1]]
            return self.zero_value(t)
        if k == 'agg':
            t = self.m.types[c[1]]
            return tuple(self.const(x) for x in c[2])
        if k == 'p2i':
            return self.p2i(self.const(c[1]))
        if k == 'i2p':
            return self.i2p(self.const(c[1]))
        if k == 'md':
            return U
        raise Unsupported('constant %s' % (c,))

    def zero_value(self, t):
        if t[0] == 'i':
            return FALSE if t[1] == 1 else I0
        if t[0] == 'f':
            return F0
        if t[0] == 'p':
            return NULL
        if t[0] == 's':
            return tuple(self.zero_value(self.m.types[x]) for _, x in t[2])
        if t[0] in ('v', 'a'):
            z = self.zero_value(self.m.types[t[3]])
            return tuple(z for _ in range(t[2]))
        raise Unsupported('zero of ' + t[0])

    def fconst(self, v):
        if v != v:
            return QNAN
        if v in (math.inf, -math.inf):
            # infinities are outside the real model: an unspecified non-number
            return F(rc(0), TRUE)
        return F(rc(Fraction(v)))

    def gptr(self, name):
        if name in self.m.funcs or name in self.m.decls:
            return P(self.func_obj(name), I0)
        return P(self.global_obj(name), I0)

    def val(self, env, o):
        if isinstance(o, int):
            return env[o]
        return self.const(o)

    # ------------------------------------------------------------ obligations
    def where(self):
        for f, _ in reversed(self.stack):
            d = f.dem
            if f.file and '/repo/' in f.file or 'fes::' in d.split('(')[0]:
                return d.split('(')[0][-90:]
        return self.stack[-1][0].dem.split('(')[0][-90:] if self.stack else '?'

    def oblige(self, st, goal, name, close=None, kind='assert'):
        if goal is TRUE or st.has(goal):
            if kind in ('assert', 'contract'):
                o = Obl(name, self.where(), [], TRUE, None, kind)
                o.status, o.by = 'proved', 'simplifier'
                self.obls.append(o)
            return
        if kind not in ('assert', 'contract') and smt.entails_quick(st.pc, goal, 2000):
            o = Obl(name, self.where(), [], TRUE, None, kind)
            o.status, o.by = 'proved', 'z3'
            self.obls.append(o)
            st.assume(goal)
            return
        self.obls.append(Obl(name, self.where(), list(st.pc), goal, close, kind))
        st.assume(goal)

    # ------------------------------------------------------------ integers
    def wrap(self, st, t, w, nsw=False, what='signed overflow'):
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if t.lo is not None and t.hi is not None and t.lo >= lo and t.hi <= hi:
            return t
        if isc(t):
            v = t.args[0] & ((1 << w) - 1)
            if v > hi:
                v -= 1 << w
            return ic(v)
        inr = And(ile(ic(lo), t), ile(t, ic(hi)))
        if nsw:
            self.oblige(st, inr, what, kind='overflow')
            return t
        if smt.entails_quick(st.pc, inr, self.t_feas):
            return t
        return isub(imod(iadd(t, ic(-lo)), 1 << w), ic(-lo))

    def uns(self, t, w):
        """unsigned reading of a signed-canonical integer"""
        if t.lo is not None and t.lo >= 0:
            return t
        if isc(t):
            return ic(t.args[0] & ((1 << w) - 1))
        if t.hi is not None and t.hi < 0:
            return iadd(t, ic(1 << w))
        return Ite(ile(I0, t), t, iadd(t, ic(1 << w)))

    def unss(self, st, t, w):
        if t.lo is not None and t.lo >= 0:
            return t
        if not isc(t) and smt.entails_quick(st.pc, ile(I0, t), self.t_feas):
            return t
        return self.uns(t, w)

    def toint(self, v, w):
        """coerce a value to an integer term of width w"""
        if isinstance(v, T):
            if v.sort == 'B':
                return Ite(v, ic(1), I0)
            return v
        if isinstance(v, (P, PU)):
            return self.p2i(v)
        if v is U or v is Bad:
            return self.fresh_int(w)
        if isinstance(v, F):
            if isc(v.r) if False else (v.r.op == 'rc' and v.n is FALSE):
                import struct
                if w == 64:
                    return ic(struct.unpack('<q', struct.pack('<d', float(v.r.args[0])))[0])
                return ic(struct.unpack('<i', struct.pack('<f', float(v.r.args[0])))[0])
            raise Unsupported('bit pattern of a symbolic floating-point value')
        if isinstance(v, Raw):
            return self.raw_to_int(v, w)
        raise Unsupported('toint %r' % (v,))

    def raw_to_int(self, v, w):
        r = I0
        for off, sz, x in v.parts:
            if not isinstance(x, (T, F, P, PU)) and x is not U and x is not Bad:
                raise Unsupported('raw int')
            t = self.uns(self.toint(x, sz * 8), sz * 8)
            r = iadd(r, iscale(t, 1 << (8 * off)))
        if r.hi is not None and r.hi < (1 << (w - 1)):
            return r
        return isub(imod(iadd(r, ic(1 << (w - 1))), 1 << w), ic(1 << (w - 1)))

    def fresh_int(self, w):
        self.undef_reads += 1
        if w == 1:
            return tm.fresh('undef', 'B')
        return tm.fresh('undef', 'I', -(1 << (w - 1)), (1 << (w - 1)) - 1)

    def fresh_f(self):
        self.undef_reads += 1
        return F(tm.fresh('undef', 'R'), tm.fresh('undefnan', 'B'))

    def coerce(self, v, ty):
        """coerce a raw/undef value to a first-class value of type ty"""
        t = self.m.types[ty]
        k = t[0]
        if k == 'i':
            if t[1] == 1:
                if isinstance(v, T):
                    return v if v.sort == 'B' else Not(ieq(v, I0))
                if v is U or v is Bad:
                    return self.fresh_int(1)
                return Not(ieq(self.toint(v, 8), I0))
            if isinstance(v, T) and v.sort == 'I':
                return v
            return self.toint(v, t[1])
        if k == 'f':
            if isinstance(v, F):
                return v
            if v is U or v is Bad:
                return self.fresh_f()
            if isinstance(v, T):
                return self.bits_to_f(v, t[1])
            if isinstance(v, Raw):
                if len(v.parts) == 1 and isinstance(v.parts[0][2], F):
                    return v.parts[0][2]
                return self.bits_to_f(self.raw_to_int(v, t[1]), t[1])
            raise Unsupported('float from %r' % (v,))
        if k == 'p':
            if isinstance(v, (P, PU)):
                return v
            if v is U or v is Bad:
                return P(-1, I0)
            if isinstance(v, T):
                return self.i2p(v)
            if isinstance(v, Raw) and len(v.parts) == 1:
                return self.coerce(v.parts[0][2], ty)
            raise Unsupported('pointer from %r' % (v,))
        if k in ('v', 'a', 's'):
            if isinstance(v, tuple):
                return v
            lay = self.layout(t)
            if v is U:
                return tuple(U for _ in lay)
            parts = v.parts if isinstance(v, Raw) else [(0, self.m.size(ty), v)]
            out = []
            for off, ety in lay:
                sz = self.m.size(ety)
                out.append(self.coerce(self.sub_raw(parts, off, sz), ety))
            return tuple(out)
        raise Unsupported('coerce to ' + k)

    def layout(self, t):
        if t[0] == 's':
            return [(o, e) for o, e in t[2]]
        return [(j * t[4], t[3]) for j in range(t[2])]

    def sub_raw(self, parts, off, sz):
        ps = []
        for o, s, v in parts:
            if o >= off + sz or o + s <= off:
                continue
            if o >= off and o + s <= off + sz:
                ps.append((o - off, s, v))
            else:
                lo, hi = max(o, off), min(o + s, off + sz)
                ps.append((lo - off, hi - lo, self.slice_val(v, s, lo - o, hi - lo)))
        if len(ps) == 1 and ps[0][0] == 0 and ps[0][1] == sz:
            return ps[0][2]
        if not ps:
            return U
        return Raw(ps, sz)

    def slice_val(self, v, s, off, n):
        if v is U or v is Bad:
            return U
        if isinstance(v, Raw):
            return self.sub_raw(v.parts, off, n)
        t = self.uns(self.toint(v, s * 8), s * 8)
        r = imod(idiv(t, 1 << (8 * off)), 1 << (8 * n))
        w = 8 * n
        if r.hi is not None and r.hi < (1 << (w - 1)):
            return r
        return isub(imod(iadd(r, ic(1 << (w - 1))), 1 << w), ic(1 << (w - 1)))

    def bits_to_f(self, t, w):
        import struct
        if isc(t):
            if w == 64:
                return self.fconst(struct.unpack('<d', struct.pack('<q', t.args[0]))[0])
            return self.fconst(struct.unpack('<f', struct.pack('<i', t.args[0]))[0])
        if t.op == 'ite':
            return merge_val(t.args[0], self.bits_to_f(t.args[1], w), self.bits_to_f(t.args[2], w))
        raise Unsupported('float from symbolic bits')

    # ------------------------------------------------------------ memory access
    def check_access(self, st, p, sz, what):
        """bounds obligation for a P; returns False when the access is invalid"""
        if p.o == 0 or p.o == -1:
            self.oblige(st, FALSE, 'valid pointer (%s)' % what, kind='memory')
            raise PathEnd()
        if p.o in st.freed:
            self.oblige(st, FALSE, 'no use after free (%s)' % what, kind='memory')
            raise PathEnd()
        o = self.obj(st, p.o)
        if isc(p.off) and isc(o.size):
            a = p.off.args[0]
            if a < 0 or a + sz > o.size.args[0]:
                self.oblige(st, FALSE, 'in-bounds %s of %s' % (what, o.name), kind='memory')
                raise PathEnd()
            return o
        g = And(ile(I0, p.off), ile(iadd(p.off, ic(sz)), o.size))
        if not st.has(g):
            self.oblige(st, g, 'in-bounds %s of %s' % (what, o.name), kind='memory')
        return o

    def load(self, st, p, ty):
        if isinstance(p, PU):
            vals = []
            for g, q in p.alts:
                if not smt.feasible(st.pc, g, self.t_feas):
                    continue
                s2 = st.fork()
                s2.assume(g)
                try:
                    v = self.load(s2, q, ty)
                except PathEnd:
                    # invalid only if this alternative is feasible
                    continue
                vals.append((g, v))
            if not vals:
                raise PathEnd()
            st.tok = object()
            r = vals[-1][1]
            for g, v in reversed(vals[:-1]):
                try:
                    r = merge_val(g, v, r)
                except Unmergeable:
                    raise NeedCase([g for g, _ in vals])
            return r
        t = self.m.types[ty]
        sz = self.m.size(ty)
        o = self.check_access(st, p, sz, 'read')
        return self.coerce(self.load_obj(st, o, p.off, sz, t), ty)

    def load_obj(self, st, o, off, sz, t):
        if o.arr is not None:
            return self.load_arr(st, o, off, sz, t)
        if isc(off):
            a = off.args[0]
            c = o.cells.get(a)
            if c is not None and c[0] == sz:
                if c[1] is Bad:
                    raise Unsupported('read of a cell with incompatible merged contents in ' + o.name)
                return c[1]
            return self.gather(o, a, sz)
        # symbolic offset into concrete cells
        if off.op == 'ite' and isc(off.args[1]) or off.op == 'ite' and isc(off.args[2]):
            x, y = off.args[1], off.args[2]
            vx = self.load_obj(st, o, x, sz, t) if smt.feasible(st.pc, off.args[0]) else None
            vy = self.load_obj(st, o, y, sz, t) if smt.feasible(st.pc, Not(off.args[0])) else None
            if vx is None:
                return vy
            if vy is None:
                return vx
            return merge_val(off.args[0], vx, vy)
        cands = []
        c0, it = tm._lin(off)
        g = 0
        for _, k in it:
            g = math.gcd(g, abs(k))
        keys = sorted(a for a in o.cells if (a - c0) % g == 0)
        lo = off.lo if off.lo is not None else 0
        hi = off.hi if off.hi is not None else (o.size.args[0] if isc(o.size) else 1 << 40)
        for a in keys:
            if lo <= a <= hi and o.cells[a][0] == sz:
                cands.append(a)
        if len(cands) > 6000:
            raise Unsupported('symbolic offset over too many cells')
        if not cands and not isc(o.size):
            raise Unsupported('symbolic read of an unstructured object ' + o.name)
        r = None
        for a in reversed(cands):
            v = o.cells[a][1]
            r = v if r is None else merge_val(ieq(off, ic(a)), v, r)
        return U if r is None else r

    def load_arr(self, st, o, off, sz, t):
        es = o.es
        if sz == es:
            i = self.index_of(st, off, es)
            if i is not None:
                return o.arr.select(i)
        elif sz % es == 0:
            i = self.index_of(st, off, es)
            if i is not None:
                return Raw([(k * es, es, o.arr.select(iadd(i, ic(k)))) for k in range(sz // es)], sz)
        raise Unsupported('misaligned array access in %s: size %d off %r' % (o.name, sz, off))

    def index_of(self, st, off, es):
        if es == 1:
            return off
        c, it = tm._lin(off)
        if c % es == 0 and all(k % es == 0 for _, k in it):
            return idiv(off, es)
        if off.op == 'ite':
            a = self.index_of(st, off.args[1], es)
            b = self.index_of(st, off.args[2], es)
            if a is not None and b is not None:
                return Ite(off.args[0], a, b)
        out = ic(c // es) if c % es == 0 else None
        if out is None:
            return None
        for x, k in it:
            if k % es == 0:
                out = iadd(out, iscale(x, k // es))
            elif x.op == 'ite':
                y = self.index_of(st, iscale(x, k) if False else Ite(x.args[0], iscale(x.args[1], k), iscale(x.args[2], k)), es)
                if y is None:
                    return None
                out = iadd(out, y)
            else:
                return None
        return out

    def gather(self, o, a, sz):
        parts = []
        pos = a
        end = a + sz
        cells = o.cells
        while pos < end:
            c = cells.get(pos)
            if c is not None:
                s, v = c
                if pos + s <= end:
                    parts.append((pos - a, s, v))
                    pos += s
                else:
                    parts.append((pos - a, end - pos, self.slice_val(v, s, 0, end - pos)))
                    pos = end
                continue
            # covered by an earlier, larger cell?
            hit = False
            for back in range(1, 64):
                c = cells.get(pos - back)
                if c is not None:
                    if c[0] > back:
                        n = min(c[0] - back, end - pos)
                        parts.append((pos - a, n, self.slice_val(c[1], c[0], back, n)))
                        pos += n
                        hit = True
                    break
            if not hit:
                # uninitialised up to the next cell
                nxt = pos + 1
                while nxt < end and nxt not in cells:
                    nxt += 1
                parts.append((pos - a, nxt - pos, U))
                pos = nxt
        if len(parts) == 1:
            return parts[0][2]
        if all(v is U for _, _, v in parts):
            return U
        return Raw(parts, sz)

    def store(self, st, p, v, ty):
        if isinstance(p, PU):
            for g, q in p.alts:
                if not smt.feasible(st.pc, g, self.t_feas):
                    continue
                if st.has(g):
                    self.store(st, q, v, ty)
                    continue
                s2 = st.fork()
                s2.assume(g)
                try:
                    old = self.load(s2, q, ty)
                except PathEnd:
                    continue
                st.tok = object()
                if isinstance(q, P) and q.o > 0:
                    o = self.obj(st, q.o)
                    raw = self.load_obj(st, o, q.off, self.m.size(ty), self.m.types[ty]) if o.arr is None else old
                    if raw is U:
                        old = U
                self.store_at(st, q, merge_val(g, v, old), ty)
            return
        self.store_at(st, p, v, ty)

    def store_at(self, st, p, v, ty):
        t = self.m.types[ty]
        sz = self.m.size(ty)
        o = self.check_access(st, p, sz, 'write')
        if o.id in self.gconst:
            self.oblige(st, FALSE, 'no write to constant ' + o.name, kind='memory')
            raise PathEnd()
        if isinstance(v, T) and v.sort == 'B':
            v = Ite(v, ic(1), I0)
        self.put(st, o, p.off, sz, v, t)

    def put(self, st, o, off, sz, v, t=None):
        if isinstance(v, tuple):
            for (eo, ety), x in zip(self.layout(t), v):
                if x is U:
                    continue
                if isinstance(x, T) and x.sort == 'B':
                    x = Ite(x, ic(1), I0)
                self.put(st, self.obj(st, o.id), iadd(off, ic(eo)), self.m.size(ety), x, self.m.types[ety])
            return
        if isinstance(v, Raw):
            for eo, s, x in v.parts:
                self.put(st, self.obj(st, o.id), iadd(off, ic(eo)), s, x)
            return
        o = self.wobj(st, o.id)
        if o.arr is not None:
            if sz != o.es:
                if isinstance(v, T) and isc(v) and v.args[0] == 0 and sz % o.es == 0:
                    for k in range(sz // o.es):
                        self.put(st, o, iadd(off, ic(k * o.es)), o.es, I0)
                    return
                raise Unsupported('array store of size %d' % sz)
            i = self.index_of(st, off, o.es)
            if i is None:
                raise Unsupported('misaligned array store')
            if o.arr.ty[0] == 'f' and not isinstance(v, F):
                v = self.fresh_f() if v is U else self.bits_to_f(v, o.es * 8)
            o.arr = Arr('store', (o.arr, i, v), o.arr.ty)
            return
        if isc(off):
            self.put_cell(o, off.args[0], sz, v)
            return
        if off.op == 'ite' and (isc(off.args[1]) or isc(off.args[2])):
            c = off.args[0]
            for g, x in ((c, off.args[1]), (Not(c), off.args[2])):
                s = State()
                old = self.load_obj(st, o, x, sz, t)
                self.put(st, o, x, sz, merge_val(g, v, old), t)
                o = self.wobj(st, o.id)
            return
        if not isc(o.size) or not o.cells:
            # uninitialised object of symbolic size: switch to array mode
            if not o.cells:
                ty = ('f', None, None, True) if isinstance(v, F) else ('i', sz * 8, -(1 << (sz * 8 - 1)), (1 << (sz * 8 - 1)) - 1)
                if isinstance(v, (P, PU)):
                    raise Unsupported('symbolic array of pointers')
                self.array_mode(o, sz, Arr('base', 'undef!%d!%d' % (o.id, len(self.obls)), ty))
                self.put(st, o, off, sz, v, t)
                return
            if sz == 1 and self.byte_mode(o):
                self.put(st, o, off, sz, v, t)
                return
            raise Unsupported('symbolic store into ' + o.name)
        c0, it = tm._lin(off)
        g = 0
        for _, k in it:
            g = math.gcd(g, abs(k))
        lo = off.lo if off.lo is not None else 0
        hi = off.hi if off.hi is not None else o.size.args[0]
        lo = max(lo, 0)
        hi = min(hi, o.size.args[0] - sz)
        first = lo + ((c0 - lo) % g)
        n = 0
        for a in range(first, hi + 1, g):
            n += 1
            if n > 6000:
                raise Unsupported('symbolic store over too many cells')
            c = o.cells.get(a)
            if c is None or c[0] != sz:
                old = self.gather(o, a, sz)
            else:
                old = c[1]
            if old is U:
                if isinstance(v, F):
                    old = self.fresh_f()
                elif isinstance(v, T):
                    old = self.fresh_int(sz * 8)
            if isinstance(v, F) and isinstance(old, (T, Raw)):
                old = self.bits_to_f(old if isinstance(old, T) else self.raw_to_int(old, sz * 8), sz * 8)
            self.put_cell(o, a, sz, merge_val(ieq(off, ic(a)), v, old))

    def put_cell(self, o, a, sz, v):
        cells = o.cells
        c = cells.get(a)
        if c is not None and c[0] == sz:
            cells[a] = (sz, v)
            return
        # remove overlapped cells
        for b in range(a - 63, a + sz):
            c = cells.get(b)
            if c is None:
                continue
            s, w = c
            if b + s <= a or b >= a + sz:
                continue
            del cells[b]
            if b < a:
                cells[b] = (a - b, self.slice_val(w, s, 0, a - b))
            if b + s > a + sz:
                cells[a + sz] = (b + s - a - sz, self.slice_val(w, s, a + sz - b, b + s - a - sz))
        cells[a] = (sz, v)

    def array_mode(self, o, es, base):
        arr = base
        for a, (s, v) in sorted(o.cells.items()):
            if s != es or a % es:
                raise Unsupported('array mode over mixed cells in ' + o.name)
            if v is U:
                continue
            if base.ty[0] == 'f' and isinstance(v, T):
                v = self.bits_to_f(v, es * 8)
            arr = Arr('store', (arr, ic(a // es), v), base.ty)
        o.cells = {}
        o.arr = arr
        o.es = es

    def byte_mode(self, o):
        """cells holding integers of any size -> array of bytes; False when a cell is not an integer"""
        for s, v in o.cells.values():
            if isinstance(v, (P, PU, F, Raw)) or s > 64:
                return False
        arr = Arr('base', 'undef!bytes!%d!%d' % (o.id, len(self.obls)), ('i', 8, -128, 127))
        for a, (s, v) in sorted(o.cells.items()):
            if v is U or v is Bad:
                continue
            for k in range(s):
                arr = Arr('store', (arr, ic(a + k), v if s == 1 else self.slice_val(v, s, k, 1)), arr.ty)
        o.cells = {}
        o.arr = arr
        o.es = 1
        return True

    # ------------------------------------------------------------ execution
    def run(self, fname, args=()):
        st = State()
        self.init_globals(st)
        f = self.m.funcs[fname]
        return self.exec_func(f, list(args), st)

    def init_globals(self, st):
        g = self.m.globals.get('llvm.global_ctors')
        if g and g[4] and g[4][0] == 'agg':
            for e in g[4][2]:
                fn = e[2][1]
                name = fn[1] if fn[0] == 'g' else None
                if name and name in self.m.funcs:
                    outs = self.exec_func(self.m.funcs[name], [], st)
                    if len(outs) != 1 or outs[0][0] != 'ret':
                        raise Unsupported('static initialiser forks')
                    st2 = outs[0][2]
                    st.mem = st2.mem
                    st.pc = st2.pc
                    st.facts = st2.facts
                    st.tok = object()

    def call_function(self, name, args, st, argt=None, rty=None):
        """-> outcomes"""
        stub = self.contracts.get(name)
        if stub is not None and not any(f.name == stub for f, _ in self.stack):
            self.used_contracts[name] = self.used_contracts.get(name, 0) + 1
            return self.exec_func(self.m.funcs[stub], args, st)
        nat = self.native(name)
        if nat is not None:
            self.natives_used[name] = self.natives_used.get(name, 0) + 1
            return nat(st, args, name, rty)
        f = self.m.funcs.get(name)
        if f is None:
            raise Unsupported('call to external function ' + self.m.decls.get(name, name))
        return self.exec_func(f, args, st)

    def exec_func(self, f, args, st):
        if f.wto is None:
            f.prepare()
        if len(self.stack) > 400:
            raise Unsupported('recursion too deep in ' + f.dem)
        self.entered[f.name] = self.entered.get(f.name, 0) + 1
        if self.deadline and time.time() > self.deadline:
            raise Undecided('time budget exhausted in ' + f.dem[:120])
        env = {}
        locs = []
        for i, a in enumerate(args[:f.nargs]):
            if f.byval[i]:
                o = self.new_obj(st, f.byval[i], 'stack', 'byval')
                self.copy(st, P(o, I0), a, ic(f.byval[i]))
                a = P(o, I0)
            elif a is U or (isinstance(a, Raw)):
                a = self.coerce(a, f.argt[i])
            env[i] = a
        self.stack.append((f, len(self.stack)))
        try:
            outs = self.run_blocks(f, env, st)
        finally:
            self.stack.pop()
        return outs

    def run_blocks(self, f, env0, st0):
        pending = {0: [(env0, st0)]}
        heap = [f.wto[0]]
        blk = {f.wto[0]: 0}
        rets = []
        throws = []
        visits = {}
        wto = f.wto
        while heap:
            w = heapq.heappop(heap)
            b = blk[w]
            lst = pending.pop(b, None)
            if not lst:
                continue
            if b in f.headers:
                # entering the loop afresh or iterating
                v = visits.get(b, 0) + 1
                visits[b] = v
                if v > self.max_unroll:
                    raise Unsupported('loop bound exceeded in ' + f.dem[:160])
            for env, st in lst:
                try:
                    res = self.exec_block(f, b, env, st)
                except PathEnd:
                    continue
                except NeedCase:
                    raise Unsupported('case split outside an instruction in ' + f.dem[:160])
                for r in res:
                    k = r[0]
                    if k == 'goto':
                        _, tgt, e2, s2 = r
                        e3 = self.edge(f, b, tgt, e2, s2)
                        q = pending.get(tgt)
                        if q is None:
                            pending[tgt] = [(e3, s2)]
                            heapq.heappush(heap, wto[tgt])
                            blk[wto[tgt]] = tgt
                        else:
                            self.add_merge(q, e3, s2)
                    elif k == 'ret':
                        self.add_out(rets, r)
                    else:
                        self.add_out(throws, r)
        return rets + throws

    def add_out(self, lst, r):
        if self.nomerge:
            lst.append(r)
            return
        for i in range(len(lst) - 1, -1, -1):
            k, v, s = lst[i]
            try:
                m, sel = merge_states(s, r[2])
                val = None
                if v is not None:
                    val = merge_val(sel, v, r[1])
                lst[i] = (k, val, m)
                return
            except Unmergeable:
                pass
        lst.append(r)

    def add_merge(self, q, env, st):
        if self.nomerge:
            q.append((env, st))
            return
        for i in range(len(q)):
            e0, s0 = q[i]
            try:
                m, sel = merge_states(s0, st)
                e = {}
                for k, v in e0.items():
                    w = env.get(k)
                    if w is None:
                        continue
                    e[k] = v if v is w else merge_val(sel, v, w)
                q[i] = (e, m)
                return
            except Unmergeable:
                continue
        q.append((env, st))

    def edge(self, f, src, tgt, env, st):
        e = {}
        live = f.live[tgt]
        for k in live:
            v = env.get(k)
            if v is not None:
                e[k] = v
        if 'lp' in env:
            e['lp'] = env['lp']
        if f.nphi[tgt]:
            for ins in f.blocks[tgt]:
                if ins[0] != 'phi':
                    break
                for v, pred in ins[3]:
                    if pred == src:
                        x = self.val(env, v)
                        if x is U or isinstance(x, Raw):
                            x = x if x is U else self.coerce(x, ins[2])
                        e[ins[1]] = x
                        break
        return e

    def decide(self, st, c):
        """-> (can be true, can be false)"""
        if c is TRUE:
            return True, False
        if c is FALSE:
            return False, True
        if st.has(c):
            return True, False
        n = Not(c)
        if st.has(n):
            return False, True
        t = smt.feasible(st.pc, c, self.t_feas)
        if not t:
            return False, True
        fl = smt.feasible(st.pc, n, self.t_feas)
        return t, fl

    def exec_block(self, f, b, env, st):
        blk = f.blocks[b]
        i = f.nphi[b]
        return self.exec_from(f, b, i, env, st)

    def exec_from(self, f, b, i, env, st):
        # a path that ends must not take its siblings with it
        try:
            return self.exec_from_(f, b, i, env, st)
        except PathEnd:
            return []

    def cases(self, f, b, i, env, st, conds):
        """re-execute instruction i once per condition (they cover all cases)"""
        outs = []
        for g in conds:
            if smt.feasible(st.pc, g, self.t_feas):
                s2 = st.fork()
                s2.assume(g)
                outs.extend(self.exec_from(f, b, i, self.refine_env(env, g), s2))
        return outs

    def exec_from_(self, f, b, i, env, st):
        blk = f.blocks[b]
        n = len(blk)
        val = self.val
        while i < n:
            ins = blk[i]
            self.nsteps += 1
            op = ins[0]
            h = self.ops.get(op)
            if h is not None:
                try:
                    env[ins[1]] = h(ins, env, st)
                except NeedCase as nc:
                    return self.cases(f, b, i, env, st, nc.conds)
                i += 1
                continue
            if op == 'store':
                pv = self.val(env, ins[4])
                s0 = st.fork() if isinstance(pv, PU) else None
                try:
                    self.store(st, pv, self.val(env, ins[3]), ins[2])
                except NeedCase as nc:
                    return self.cases(f, b, i, env, s0 or st, nc.conds)
                i += 1
                continue
            if op == 'call' or op == 'invoke':
                return self.do_call(f, b, i, ins, env, st)
            if op == 'br':
                return [('goto', ins[2], env, st)]
            if op == 'cbr':
                c = val(env, ins[2])
                if c is U:
                    c = self.fresh_int(1)
                if ins[3] == ins[4]:
                    return [('goto', ins[3], env, st)]
                t, fl = self.decide(st, c)
                if t and not fl:
                    return [('goto', ins[3], env, st)]
                if fl and not t:
                    return [('goto', ins[4], env, st)]
                s2 = st.fork()
                st.assume(c)
                s2.assume(Not(c))
                e2 = dict(env)
                return [('goto', ins[3], env, st), ('goto', ins[4], e2, s2)]
            if op == 'switch':
                v = val(env, ins[3])
                if isinstance(v, T) and v.sort == 'B':
                    v = Ite(v, ic(1 if True else 0), I0)
                outs = []
                groups = {}
                order = []
                for k, tgt in ins[5]:
                    c = ieq(v, ic(k))
                    if c is FALSE:
                        continue
                    if tgt not in groups:
                        groups[tgt] = FALSE
                        order.append(tgt)
                    groups[tgt] = Or(groups[tgt], c)
                rest = And(*[Not(ieq(v, ic(k))) for k, _ in ins[5]])
                alts = [(groups[t], t) for t in order] + [(rest, ins[4])]
                feas = [(c, t) for c, t in alts if c is not FALSE and (c is TRUE or smt.feasible(st.pc, c, self.t_feas))]
                # merge alternatives with the same target
                for j, (c, t) in enumerate(feas):
                    s2 = st.fork() if j < len(feas) - 1 else st
                    if len(feas) > 1:
                        s2.assume(c)
                    outs.append(('goto', t, dict(env), s2))
                return outs
            if op == 'ret':
                if len(ins) > 3:
                    v = val(env, ins[2])
                else:
                    v = None
                return [('ret', v, st)]
            if op == 'unreachable':
                self.oblige(st, FALSE, 'unreachable code is not reached', kind='memory')
                return []
            if op == 'resume':
                v = val(env, ins[2])
                return [('throw', self.resume_val(v, st), st)]
            if op == 'fence':
                i += 1
                continue
            raise Unsupported('instruction %s %s' % (op, ins[2] if len(ins) > 2 else ''))
        raise Unsupported('block without terminator')

    def refine_env(self, env, g):
        """resolve guarded pointers under g"""
        m = smt.assume_subst(g, True)
        e = {}
        for k, v in env.items():
            if isinstance(v, PU):
                alts = [(tm.subst(c, m), p) for c, p in v.alts]
                t = [p for c, p in alts if c is TRUE or c is g]
                if t:
                    v = t[0]
                else:
                    for c0, p in v.alts:
                        if c0 is g:
                            v = p
                            break
                    else:
                        v = mkpu(alts) if any(c is not FALSE for c, _ in alts) else v
            e[k] = v
        return e

    def do_call(self, f, b, i, ins, env, st):
        try:
            return self.do_call_(f, b, i, ins, env, st)
        except PathEnd:
            return []

    def do_call_(self, f, b, i, ins, env, st):
        op, dest, rty, callee = ins[0], ins[1], ins[2], ins[3]
        if callee[0] == 'asm' if isinstance(callee, list) else False:
            raise Unsupported('inline asm')
        args = []
        for a, ty in zip(ins[4], ins[5]):
            x = self.val(env, a)
            args.append(x)
        if isinstance(callee, list):
            fv = None
            name = callee[1] if callee[0] == 'g' else None
            if name is None:
                fv = self.const(callee)
        else:
            fv = self.val(env, callee)
            name = None
        if name is None:
            if isinstance(fv, PU):
                outs = []
                alts = [(g, p) for g, p in fv.alts if smt.feasible(st.pc, g, self.t_feas)]
                for j, (g, p) in enumerate(alts):
                    s2 = st.fork()
                    s2.assume(g)
                    e2 = self.refine_env(env, g)
                    if not isinstance(callee, list):
                        e2[callee] = p
                    outs.extend(self.do_call(f, b, i, ins, e2, s2))
                return outs
            name = self.objfn.get(fv.o)
            if name is None:
                self.oblige(st, FALSE, 'call through a valid function pointer', kind='memory')
                return []
        depth = len(self.stack)
        s0 = st.fork() if (name.startswith('llvm.') or self.native(name) is not None) and any(isinstance(a, PU) for a in args) else None
        try:
            if name.startswith('llvm.'):
                r = self.intrinsic(name, args, st, ins)
                outs = [('ret', r, st)]
            else:
                outs = self.call_function(name, args, st, ins[5], rty)
        except NeedCase as nc:
            if len(self.stack) != depth:
                raise Unsupported('case split inside ' + name)
            return self.cases(f, b, i, env, s0 or st, nc.conds)
        res = []
        multi = len(outs) > 1
        for k, v, s in outs:
            e = dict(env) if multi else env
            if k == 'ret':
                if dest >= 0:
                    if v is None:
                        v = U
                    if isinstance(v, Raw):
                        v = self.coerce(v, rty)
                    e[dest] = v
                if op == 'invoke':
                    res.append(('goto', ins[6], e, s))
                else:
                    res.extend(self.exec_from(f, b, i + 1, e, s))
            else:
                if op == 'invoke':
                    res.extend(self.landing(f, ins[7], e, s, v))
                else:
                    res.append(('throw', v, s))
        return res

    # exceptions: v = (pointer to exception object, pointer to type_info)
    def landing(self, f, tgt, env, st, exc):
        lp = None
        for ins in f.blocks[tgt]:
            if ins[0] == 'landingpad':
                lp = ins
                break
        ptr, ti = exc
        cleanup = lp[2]
        sel = None
        conds = []
        catches = []
        for kind, cl in lp[3]:
            if kind != 'catch':
                raise Unsupported('exception filter')
            if cl[0] == 'null':
                cond = TRUE
                tid = 0x7fff
                catches.append((cond, self.typeid_of(None)))
            else:
                name = self.ti_name(self.const(cl))
                cond = self.ti_match(ti, name)
                catches.append((cond, self.typeid_of(name)))
        any_c = Or(*[c for c, _ in catches]) if catches else FALSE
        outs = []
        selv = I0
        for c, k in reversed(catches):
            selv = Ite(c, ic(k), selv)
        env = dict(env)
        if cleanup or any_c is TRUE:
            env['lp'] = (ptr, selv)
            return [('goto', tgt, env, st)]
        if any_c is FALSE:
            return [('throw', exc, st)]
        s2 = st.fork()
        st.assume(any_c)
        s2.assume(Not(any_c))
        env['lp'] = (ptr, selv)
        return [('goto', tgt, env, st), ('throw', exc, s2)]


class PathEnd(Exception):
    pass


class NeedCase(Exception):
    def __init__(self, conds):
        self.conds = conds
