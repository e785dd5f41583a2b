"""Symbolic executor for LLVM IR with state merging, on top of z3.

Scalars are Python ints when concrete and z3 bit-vectors (z3 Bool for i1) when
symbolic.  Pointers are (object, offset).  States that reach the same program
point (same call stack, same loop iterations) are merged, so the final result of
running a function is a handful of states whose path conditions and values
cover *all* inputs admitted by the assumptions.
"""
import heapq
import time
import z3
import llir
from llir import IRError, PTR, is_int, size_of, field_offset, bits_of


class Unsupported(Exception):
    """the executor cannot encode something: an error of the check, never a verdict"""


class SolverUnknown(Exception):
    pass


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)


class PIte:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return 'PIte'


class FloatInt:
    """an f64 that is exactly the integer bv (bv < 2**53)"""
    __slots__ = ('bv',)

    def __init__(self, bv):
        self.bv = bv


class _Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()
isz = z3.is_expr


def BV(x, w):
    return z3.BitVecVal(x, w) if type(x) is int else x


def bvc(c):
    return z3.BitVecVal(c, 64)


def mask(w):
    return (1 << w) - 1


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def extract(hi, lo, v):
    if type(v) is int:
        return (v >> lo) & mask(hi - lo + 1)
    w = v.size()
    if lo == 0 and hi == w - 1:
        return v
    k = v.decl().kind()
    if k == z3.Z3_OP_EXTRACT:
        h, l = v.params()
        return extract(hi + l, lo + l, v.arg(0))
    if k == z3.Z3_OP_CONCAT:
        pos = w
        for i in range(v.num_args()):
            a = v.arg(i)
            n = a.size()
            pos -= n
            if lo >= pos and hi < pos + n:
                return extract(hi - pos, lo - pos, a)
    if k == z3.Z3_OP_ZERO_EXT:
        n = v.arg(0).size()
        if hi < n:
            return extract(hi, lo, v.arg(0))
        if lo >= n:
            return 0
    if k == z3.Z3_OP_ITE:
        a, b = v.arg(1), v.arg(2)
        if z3.is_bv_value(a) and z3.is_bv_value(b):
            x, y = extract(hi, lo, a.as_long()), extract(hi, lo, b.as_long())
            if x == y:
                return x
            return z3.If(v.arg(0), z3.BitVecVal(x, hi - lo + 1), z3.BitVecVal(y, hi - lo + 1))
    if k == z3.Z3_OP_BNUM:
        return (v.as_long() >> lo) & mask(hi - lo + 1)
    return z3.Extract(hi, lo, v)


def norm(v):
    """z3 numeral -> int"""
    if isz(v) and z3.is_bv_value(v):
        return v.as_long()
    return v


def concat_parts(parts):
    """parts: list of (value, bits) most significant first"""
    if len(parts) == 1:
        return parts[0][0]
    if all(type(p[0]) is int for p in parts):
        r = 0
        for v, w in parts:
            r = (r << w) | v
        return r
    # merge adjacent ints
    out = []
    for v, w in parts:
        if out and type(v) is int and type(out[-1][0]) is int:
            out[-1] = ((out[-1][0] << w) | v, out[-1][1] + w)
        else:
            out.append((v, w))
    if len(out) == 2 and type(out[0][0]) is int and out[0][0] == 0 and isz(out[1][0]):
        return z3.ZeroExt(out[0][1], out[1][0])
    return z3.Concat(*[BV(v, w) for v, w in out])


_same = lambda a, b: a is b or (type(a) is int and type(b) is int and a == b) or \
    (isz(a) and isz(b) and a.eq(b))


class Node:
    """path condition as a persistent list"""
    __slots__ = ('up', 'c', 'n', 'lits')

    def __init__(self, up, c):
        self.up = up
        self.c = c
        self.n = 0 if up is None else up.n + 1

    def conds(self, stop=None):
        out = []
        x = self
        while x is not stop and x.up is not None:
            out.append(x.c)
            x = x.up
        out.reverse()
        return out


ROOT = Node(None, None)


def lca(a, b):
    while a.n > b.n:
        a = a.up
    while b.n > a.n:
        b = b.up
    while a is not b:
        a, b = a.up, b.up
    return a


class SArr:
    """the contents of an input of unknown content; const: every byte has this value"""
    count = 0

    def __init__(self, name, const=None):
        SArr.count += 1
        self.id = SArr.count
        self.name, self.const = name, const
        self.reads = {}
        self.pins = []
        self.view = []           # (start, n, array, start there): parts that are parts of another input

    def resolve(self, off, n):
        """(array, offset) that a part at a known offset stands for"""
        for s, m, arr, t in self.view:
            if s <= off and off + n <= s + m:
                return arr, t + off - s
        return self, off

    def pin(self, off, v):
        """the byte at this offset is known"""
        b, c = split_off(norm(z3.simplify(off, som=True)))
        self.pins.append((b, c, v))


class Read:
    __slots__ = ('arr', 'off', 'var', 'base')

    def __init__(self, arr, off, var, base):
        self.arr, self.off, self.var, self.base = arr, off, var, base


def split_off(off):
    """offset -> (base term or None, integer)"""
    if type(off) is int:
        return None, sgn(off & mask(64), 64)
    if off.decl().kind() == z3.Z3_OP_BADD:
        c = 0
        rest = []
        for a in off.children():
            if z3.is_bv_value(a):
                c += a.as_long()
            else:
                rest.append(a)
        if c:
            b = rest[0]
            for x in rest[1:]:
                b = b + x
            return z3.simplify(b, som=True), sgn(c & mask(64), 64)
    return off, 0


class Copy:
    __slots__ = ('dst', 'n', 'src', 'soff')

    def __init__(self, dst, n, src, soff):
        self.dst, self.n, self.src, self.soff = dst, n, src, soff


class Fill:
    __slots__ = ('dst', 'n', 'v')

    def __init__(self, dst, n, v):
        self.dst, self.n, self.v = dst, n, v


class Obj:
    __slots__ = ('id', 'size', 'init', 'layers', 'owner', 'ro', 'kind')

    def __init__(self, id, size, init=('undef',), ro=False, kind=''):
        self.id = id
        self.size = size
        self.init = init
        self.layers = []          # oldest first: dict | Copy | Fill
        self.owner = None
        self.ro = ro
        self.kind = kind

    def clone(self, owner):
        o = Obj(self.id, self.size, self.init, self.ro, self.kind)
        o.layers = [dict(x) if type(x) is dict and i == len(self.layers) - 1 else x
                    for i, x in enumerate(self.layers)]
        o.owner = owner
        return o


class Frame:
    __slots__ = ('f', 'an', 'block', 'idx', 'regs', 'loops', 'dst', 'allocas', 'fid', '_key')

    def __init__(self, f, an, fid):
        self.f, self.an, self.fid = f, an, fid
        self.block = f.order[0]
        self.idx = 0
        self.regs = {}
        self.loops = {}
        self.dst = None
        self.allocas = ()
        self._key = None

    def copy(self):
        g = Frame.__new__(Frame)
        g.f, g.an, g.fid, g.block, g.idx = self.f, self.an, self.fid, self.block, self.idx
        g.regs = dict(self.regs)
        g.loops = self.loops
        g.dst, g.allocas = self.dst, self.allocas
        g._key = self._key
        return g

    def key(self):
        if self._key is None or self._key[0] != self.idx:
            out = []
            for e in self.an.path[self.block]:
                if type(e) is tuple:
                    out.append(e[0])
                    out.append(self.loops[e[1]])
                else:
                    out.append(e)
            out.append(self.idx)
            out.append(self.fid)
            self._key = (self.idx, tuple(out))
        return self._key[1]


class State:
    __slots__ = ('frames', 'mem', 'pc', 'own', 'model', 'extra', 'depth')

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = ROOT
        self.own = object()
        self.model = None
        self.extra = {}

    def fork(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = self.pc
        s.own = object()
        self.own = object()
        s.model = self.model
        s.extra = dict(self.extra)
        return s

    def key(self):
        k = ()
        for f in self.frames:
            k += f.key()
        return k

    def assume(self, c):
        c = z3.simplify(c) if isz(c) else c
        if c is True or (isz(c) and z3.is_true(c)):
            return
        self.pc = Node(self.pc, c)

    def conds(self):
        return self.pc.conds()


class Outcome:
    def __init__(self, kind, st, value=None, info=None):
        self.kind = kind            # 'ret' | 'panic' | 'abort'
        self.st = st
        self.value = value
        self.info = info

    def cond(self):
        cs = self.st.conds()
        return z3.And(*cs) if cs else z3.BoolVal(True)


SLOT = 1 << 36


class Executor:
    def __init__(self, mod, externs=None, timeout_ms=20000, seed=1, verbose=False):
        self.mod = mod
        self.externs = externs or {}
        self.an = {}
        self.fids = {}
        self.globobj = {}       # name -> obj id
        self.funcptr = {}       # obj id -> function name
        self.next_obj = 1
        self.allockeys = {}
        self.objs0 = {}         # global objects shared by all states
        self.nextobj = {}       # obj -> adjacent following obj
        self.prevobj = {}
        self.base = {}
        self.fresh = 0
        self.stats = dict(insts=0, forks=0, merges=0, checks=0, solver_s=0.0, unknown=0, maxstates=0, queries=0)
        self.encoded = set()
        self.stubbed = set()
        self.axioms = []        # global facts: definitions of introduced symbols
        self.timeout_ms = timeout_ms
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.solver.set('random_seed', seed)
        self.lit = {}
        self.naxioms = 0
        self.verbose = verbose
        self.outcomes = []
        self.itecache = {}
        self.cur = None
        self.addrs = {}
        self.range_eqs = []
        self.slides = {}
        self.nomerge = False
        self._diffs = {}
        self.arrays = []
        self.bases = {}
        self.zero_arr = SArr('zero', 0)
        self.hashes = []
        self.step_limit = 3_000_000
        self.deadline = None

    # ------------------------------------------------------------ solver
    def _lit(self, c):
        i = c.get_id()
        l = self.lit.get(i)
        if l is None:
            p = z3.Bool('pc!%d' % len(self.lit))
            self.solver.add(z3.Implies(p, c))
            self.lit[i] = l = (p, c)
        return l[0]

    def check(self, conds):
        """sat / unsat / unknown of the conjunction with the axioms; returns (r, model)"""
        if self.deadline and time.time() > self.deadline:
            raise SolverUnknown('time budget of the check exhausted')
        while self.naxioms < len(self.axioms):
            self.solver.add(self.axioms[self.naxioms])
            self.naxioms += 1
        lits = [self._lit(c) for c in conds]
        t = time.time()
        r = self.solver.check(*lits)
        dt = time.time() - t
        self.stats['solver_s'] += dt
        self.stats['checks'] += 1
        if self.verbose and dt > 1:
            print('   slow check %.1fs %s n=%d' % (dt, r, len(lits)), flush=True)
            print('     ', str(conds[-1])[:300].replace('\n', ' '), flush=True)
            if self.cur:
                print('     ', where(self.cur).split('\n')[-1], self.cur.frames[-1].loops, flush=True)
        if r == z3.sat:
            return 'sat', self.solver.model()
        if r == z3.unsat:
            return 'unsat', None
        self.stats['unknown'] += 1
        return 'unknown', None

    def check_fresh(self, conds, quick_ms=700):
        """as check, for the queries that decide something: after a short try with the
        incremental solver, a fresh one with full preprocessing"""
        self.solver.set('timeout', quick_ms)
        try:
            r, m = self.check(conds)
        finally:
            self.solver.set('timeout', self.timeout_ms)
        if r != 'unknown':
            return r, m
        self.stats['unknown'] -= 1
        s = z3.SolverFor('QF_BV')
        left = self.timeout_ms
        if self.deadline:
            left = max(1000, min(left, int(1000 * (self.deadline - time.time()))))
        s.set('timeout', left)
        s.add(self.axioms)
        s.add(conds)
        t = time.time()
        r = s.check()
        dt = time.time() - t
        self.stats['solver_s'] += dt
        self.stats['checks'] += 1
        if self.verbose and dt > 1:
            print('   slow fresh check %.1fs %s' % (dt, r), flush=True)
        if r == z3.sat:
            return 'sat', s.model()
        if r == z3.unsat:
            return 'unsat', None
        self.stats['unknown'] += 1
        return 'unknown', None

    def feasible(self, st, c):
        r, m = self.check(st.conds() + [c])
        return r != 'unsat', m

    def must(self, st, c):
        c = z3.simplify(c) if isz(c) else z3.BoolVal(bool(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if st.model is not None and z3.is_false(st.model.eval(c, model_completion=True)):
            return False
        r, m = self.check(st.conds() + [z3.Not(c)])
        return r == 'unsat'

    def sym(self, name, w):
        self.fresh += 1
        return z3.BitVec('%s!%d' % (name, self.fresh), w)

    def symbool(self, name):
        self.fresh += 1
        return z3.Bool('%s!%d' % (name, self.fresh))

    # ------------------------------------------------------------ objects
    def new_id(self, n=1):
        i = self.next_obj
        self.next_obj += 1
        self.base[i] = i * SLOT
        return i

    def new_obj(self, st, size, init=('undef',), kind='', key=None):
        """key: allocation context; equal keys in sibling states give the same object"""
        if key is not None:
            i = self.allockeys.get(key)
            if i is None:
                i = self.allockeys[key] = self.new_id()
        else:
            i = self.new_id()
        o = Obj(i, size, init, kind=kind)
        o.owner = st.own
        st.mem[i] = o
        return Ptr(i, 0)

    def adjacent(self, a, b, size):
        """object b directly follows object a of concrete size"""
        self.nextobj[a] = b
        self.prevobj[b] = a
        self.base[b] = self.base[a] + size

    def obj(self, st, i):
        o = st.mem.get(i)
        if o is None:
            o = self.objs0.get(i)
            if o is None:
                raise Unsupported('access to a dead object %s' % i)
        return o

    def wobj(self, st, i):
        o = st.mem.get(i)
        if o is None:
            raise Unsupported('write to a dead or constant object')
        if o.owner is not st.own:
            o = o.clone(st.own)
            st.mem[i] = o
        return o

    def addr(self, p):
        if type(p) is int or isz(p):
            return p
        if p is UNDEF:
            return self.sym('undef', 64)
        if type(p) is PIte:
            r = self.ite(p.c, self.addr(p.a), self.addr(p.b), 64)
        else:
            b = self.base[p.obj]
            if type(p.off) is int:
                r = (b + p.off) & mask(64) if type(b) is int else b + BV(p.off & mask(64), 64) if p.off else b
            else:
                r = p.off + b
        if isz(r):
            self.addrs[r.get_id()] = (r, p)
        return r

    def from_addr(self, st, v):
        """pointer whose (symbolic) address is the term v, if v was computed from one"""
        k = ('v', v.get_id())
        r = self.addrs.get(k)
        if r is None:
            r = (v, None)
            for e, p in [x for j, x in self.addrs.items() if type(j) is int]:
                s = z3.simplify(e == v)
                if z3.is_false(s):
                    continue
                if z3.is_true(s) or self.check([z3.Not(s)])[0] == 'unsat':
                    r = (v, p)
                    break
            if r[1] is not None:
                self.addrs[k] = r
        return r[1]

    def to_ptr(self, v):
        """integer -> pointer"""
        if type(v) is int:
            i = v // SLOT
            if i in self.base and type(self.base[i]) is int and self.base[i] <= v:
                return Ptr(i, v - self.base[i])
            return v
        return v

    def norm_ptr(self, p):
        """move a pointer past the end (before the start) of an object into its neighbour"""
        while type(p.off) is int:
            if p.off >= 1 << 63:
                p = Ptr(p.obj, p.off - (1 << 64))
            n = self.nextobj.get(p.obj)
            if n is not None:
                sz = self.base[n] - self.base[p.obj]
                if p.off >= sz:
                    p = Ptr(n, p.off - sz)
                    continue
            if p.off < 0 and p.obj in self.prevobj:
                q = self.prevobj[p.obj]
                p = Ptr(q, p.off + self.base[p.obj] - self.base[q])
                continue
            break
        return p

    def gep(self, p, d):
        if type(p) is PIte:
            return PIte(p.c, self.gep(p.a, d), self.gep(p.b, d))
        if type(p) is int:
            if type(d) is int:
                return (p + d) & mask(64)
            return BV(p, 64) + d
        if p is UNDEF:
            return UNDEF
        if isz(p):
            return p + BV(d, 64)
        if type(p.off) is int and type(d) is int:
            return self.norm_ptr(Ptr(p.obj, p.off + sgn(d, 64)))
        return Ptr(p.obj, norm(z3.simplify(BV(p.off, 64) + BV(d, 64), som=True)))

    # ------------------------------------------------------------ ite / merging of values
    def ite(self, c, a, b, w):
        """w: bit width for ints ('b' for i1)"""
        if a is b:
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        ta, tb = type(a), type(b)
        if ta is int and tb is int:
            if a == b:
                return a
            if w == 1:
                return c if a else z3.Not(c)
            return z3.If(c, z3.BitVecVal(a, w), z3.BitVecVal(b, w))
        if ta in (Ptr, PIte) or tb in (Ptr, PIte):
            if ta is Ptr and tb is Ptr and a.obj == b.obj:
                if _same(a.off, b.off):
                    return a
                return Ptr(a.obj, z3.If(c, BV(a.off, 64), BV(b.off, 64)))
            if ta is PIte and tb is PIte and a.c.eq(b.c):
                x, y = self.ite(c, a.a, b.a, 64), self.ite(c, a.b, b.b, 64)
                return PIte(a.c, x, y)
            if ta is PIte and tb is not PIte:
                if _pe(a.a, b):
                    return self.mkp(z3.Or(a.c, z3.Not(c)), b, a.b)
                if _pe(a.b, b):
                    return self.mkp(z3.And(a.c, c), a.a, b)
            if tb is PIte and ta is not PIte:
                if _pe(b.a, a):
                    return self.mkp(z3.Or(c, b.c), a, b.b)
                if _pe(b.b, a):
                    return self.mkp(z3.And(z3.Not(c), b.c), b.a, a)
            return PIte(c, a, b)
        if ta is list:
            return [self.ite(c, x, y, w[i] if type(w) is list else w) for i, (x, y) in enumerate(zip(a, b))]
        if ta is FloatInt and tb is FloatInt:
            return FloatInt(self.ite(c, a.bv, b.bv, 64))
        if isz(a) and isz(b) and a.eq(b):
            return a
        if w == 1:
            a = z3.BoolVal(bool(a)) if ta is int else a
            b = z3.BoolVal(bool(b)) if tb is int else b
            return z3.simplify(z3.If(c, a, b))
        if isz(a):
            w = a.size()
        elif isz(b):
            w = b.size()
        k = (c.get_id(), a.get_id() if isz(a) else ('i', a), b.get_id() if isz(b) else ('i', b), w)
        r = self.itecache.get(k)
        if r is None:
            r = self.itecache[k] = (z3.If(c, BV(a, w), BV(b, w)), c, a, b)
        return r[0]

    def mkp(self, c, a, b):
        c = z3.simplify(c)
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        return PIte(c, a, b)

    def merge_entry(self, c, ea, eb):
        if ea is eb:
            return ea
        if ea is UNDEF:
            return eb
        if eb is UNDEF:
            return ea
        ta, tb = type(ea), type(eb)
        if ta is int and tb is int:
            if ea == eb:
                return ea
            return (z3.If(c, z3.BitVecVal(ea, 8), z3.BitVecVal(eb, 8)), 0, 1)
        if ta is tuple and tb is tuple and ea[1:] == eb[1:]:
            if _same(ea[0], eb[0]):
                return ea
            pa, pb = type(ea[0]) in (Ptr, PIte), type(eb[0]) in (Ptr, PIte)
            if not pa and not pb:
                return (self.ite(c, ea[0], eb[0], 8 * ea[2]), ea[1], ea[2])
        if ta is tuple and type(ea[0]) in (Ptr, PIte) or tb is tuple and type(eb[0]) in (Ptr, PIte):
            raise Unsupported('merge_entry of pointer byte')
        a = self.entry_bv(ea)
        b = self.entry_bv(eb)
        return (z3.If(c, BV(a, 8), BV(b, 8)), 0, 1)

    def entry_bv(self, e):
        """8-bit value of a byte entry"""
        if type(e) is int:
            return e
        if e is UNDEF:
            return self.sym('undef', 8)
        v, k, n = e
        if type(v) in (Ptr, PIte):
            v = self.addr(v)
        return norm(extract(8 * k + 7, 8 * k, v))

    # ------------------------------------------------------------ memory access
    def read_entry(self, st, o, off, upto=None):
        """byte entry of object o at offset off (int or BV64)"""
        layers = o.layers
        i = (len(layers) if upto is None else upto) - 1
        while i >= 0:
            l = layers[i]
            if type(l) is dict:
                if type(off) is int:
                    e = l.get(off)
                    if e is not None:
                        return e
                elif l:
                    lo, hi = min(l), max(l)
                    if not self._outside(st, off, lo, hi):
                        rest = self.read_entry(st, o, off, i)
                        if hi - lo > 4096:
                            raise Unsupported('symbolic read over a large concrete layer')
                        r = BV(self.entry_bv(rest), 8)
                        for k in sorted(l):
                            r = z3.If(off == k, BV(self.entry_bv(l[k]), 8), r)
                        return (r, 0, 1)
            else:
                d = self._sub(off, l.dst)
                cond = self._ult(d, l.n)
                if cond is True or (isz(cond) and self._known(st, cond)):
                    return self._layer_byte(st, l, d)
                if not (cond is False or self._known(st, z3.Not(cond))):
                    rest = self.read_entry(st, o, off, i)
                    x = BV(self.entry_bv(self._layer_byte(st, l, d)), 8)
                    return (z3.If(cond, x, BV(self.entry_bv(rest), 8)), 0, 1)
            i -= 1
        k = o.init[0]
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return 0
        if k == 'bytes':
            b = o.init[1]
            if type(off) is int:
                return b[off] if off < len(b) else UNDEF
            if len(b) > 1024:
                raise Unsupported('symbolic read of a large constant')
            r = z3.BitVecVal(0, 8)
            for j, x in enumerate(b):
                r = z3.If(off == j, z3.BitVecVal(x, 8), r)
            return (r, 0, 1)
        if k == 'array':
            return (self.sel(o.init[1], off), 0, 1)
        if k == 'merge':
            _, c, a, b = o.init
            return self.merge_entry(c, self.read_entry(st, a, off), self.read_entry(st, b, off))
        raise Unsupported(k)

    def _layer_byte(self, st, l, d):
        if type(l) is Fill:
            return l.v
        return self.read_entry(st, l.src, self._add(l.soff, d))

    def _sub(self, a, b):
        if type(a) is int and type(b) is int:
            return (a - b) & mask(64)
        return norm(z3.simplify(BV(a, 64) - BV(b, 64), som=True))

    def _add(self, a, b):
        if type(a) is int and type(b) is int:
            return (a + b) & mask(64)
        return norm(z3.simplify(BV(a, 64) + BV(b, 64), som=True))

    def _ult(self, a, b):
        if type(a) is int and type(b) is int:
            return a < b
        c = z3.simplify(z3.ULT(BV(a, 64), BV(b, 64)))
        return True if z3.is_true(c) else False if z3.is_false(c) else c

    def _known(self, st, c):
        return self.must(st, c)

    def _outside(self, st, off, lo, hi):
        return self.must(st, z3.Or(z3.ULT(off, BV(lo, 64)), z3.UGT(off, BV(hi, 64))))

    def entries(self, st, p, n):
        o = self.obj(st, p.obj)
        off = p.off
        if type(off) is int and type(o.size) is int and (off < 0 or off + n > o.size):
            raise Unsupported('out-of-bounds read of %d at %d in object of size %s (%s)' % (n, off, o.size, o.kind))
        if type(off) is int:
            if len(o.layers) == 1 and type(o.layers[0]) is dict:
                l = o.layers[0]
                out = []
                for k in range(n):
                    e = l.get(off + k)
                    out.append(self.read_entry(st, o, off + k) if e is None else e)
                return out
            return [self.read_entry(st, o, off + k) for k in range(n)]
        return [self.read_entry(st, o, self._add(off, k)) for k in range(n)]

    def combine(self, es):
        """LE list of byte entries -> value"""
        n = len(es)
        e0 = es[0]
        if type(e0) is tuple and e0[1] == 0 and e0[2] == n:
            v = e0[0]
            for k in range(1, n):
                e = es[k]
                if type(e) is not tuple or e[0] is not v or e[1] != k:
                    break
            else:
                return v
        if all(type(e) is int for e in es):
            return int.from_bytes(bytes(es), 'little')
        if all(e is UNDEF for e in es):
            return UNDEF
        parts = []
        i = 0
        while i < n:
            e = es[i]
            if type(e) is tuple:
                v, k = e[0], e[1]
                j = i + 1
                while j < n and type(es[j]) is tuple and es[j][0] is v and es[j][1] == k + (j - i):
                    j += 1
                if type(v) in (Ptr, PIte):
                    v = self.addr(v)
                parts.append((norm(extract(8 * (k + j - i) - 1, 8 * k, v)), 8 * (j - i)))
                i = j
            else:
                parts.append((self.entry_bv(e), 8))
                i += 1
        parts.reverse()
        return norm(concat_parts(parts))

    def load(self, st, p, n):
        """n bytes at p -> value (int / BV / Ptr)"""
        return self.combine(self.entries(st, p, n))

    def store_entries(self, st, p, es):
        o = self.wobj(st, p.obj)
        if type(p.off) is not int:
            raise Unsupported('store at a symbolic offset')
        if type(o.size) is int and (p.off < 0 or p.off + len(es) > o.size):
            raise Unsupported('out-of-bounds write of %d at %d in object of size %s (%s)' % (len(es), p.off, o.size, o.kind))
        if not o.layers or type(o.layers[-1]) is not dict:
            o.layers.append({})
        l = o.layers[-1]
        off = p.off
        for k, e in enumerate(es):
            l[off + k] = e

    def val_entries(self, v, n):
        if type(v) is int:
            return list(v.to_bytes(n, 'little'))
        if v is UNDEF:
            return [UNDEF] * n
        if isz(v) and v.size() < 8 * n:
            v = z3.ZeroExt(8 * n - v.size(), v)
        return [(v, k, n) for k in range(n)]

    def store(self, st, p, v, n):
        if type(p.off) is not int:
            self.sym_store(st, p, self.val_entries(v, n))
            return
        self.store_entries(st, p, self.val_entries(v, n))

    def sym_store(self, st, p, es):
        """store of a few bytes at a symbolic offset: a copy layer from a scratch object"""
        src = Obj(-1, len(es), ('undef',))
        src.layers = [dict(enumerate(es))]
        o = self.wobj(st, p.obj)
        o.layers.append(Copy(p.off, len(es), src, 0))

    def memcpy(self, st, d, s, n):
        if type(n) is int:
            if n == 0:
                return
            if type(d) is not Ptr or type(s) is not Ptr:
                raise Unsupported('memcpy of %r %r' % (d, s))
            so = self.obj(st, s.obj)
            if type(d.off) is int and n <= 4096:
                # a large read at a symbolic source keeps as a lazy copy
                if type(s.off) is int or n <= 64:
                    self.store_entries(st, d, self.entries(st, s, n))
                    return
            snap = so
            so.owner = None       # freeze the snapshot: the next write clones
            o = self.wobj(st, d.obj)
            o.layers.append(Copy(d.off, n, snap, s.off))
            return
        if type(d) is not Ptr or type(s) is not Ptr:
            if self.must(st, n == 0):
                return
            raise Unsupported('memcpy')
        so = self.obj(st, s.obj)
        so.owner = None
        o = self.wobj(st, d.obj)
        o.layers.append(Copy(d.off, n, so, s.off))

    def memset(self, st, d, v, n):
        if type(n) is int and n <= 8192 and type(d.off) is int:
            if n:
                e = v if type(v) is int else UNDEF if v is UNDEF else (v, 0, 1)
                self.store_entries(st, d, [e] * n)
            return
        if type(n) is int and n == 0:
            return
        o = self.wobj(st, d.obj)
        o.layers.append(Fill(d.off, n, v if type(v) is int else (v, 0, 1)))

    def snapshot(self, st, p):
        """freeze the object p points to and return it"""
        o = self.obj(st, p.obj)
        o.owner = None
        return o

    # ------------------------------------------------------------ range equality with symbolic length
    def range_key(self, st, p, n=None):
        """(array, absolute offset) of a range of n bytes that is a plain copy of a symbolic input"""
        return self._range_key(st, self.obj(st, p.obj), p.off, n)

    def _range_key(self, st, o, off, n):
        for l in reversed(o.layers):
            if type(l) is dict:
                if not l:
                    continue
                lo, hi = BV(min(l), 64), BV(max(l), 64)
                if n is None:
                    return None
                c = z3.Or(z3.ULE(BV(off, 64) + BV(n, 64), lo), z3.UGT(BV(off, 64), hi), BV(n, 64) == 0)
                if not self.must(st, c):
                    return None
                continue
            d = self._sub(off, l.dst)
            if n is None:
                return None
            inside = z3.And(z3.ULE(BV(d, 64), BV(l.n, 64)), z3.ULE(BV(n, 64), BV(l.n, 64) - BV(d, 64)))
            if self.must(st, inside):
                if type(l) is Fill:
                    if type(l.v) is int:
                        return SArr('fill', l.v), BV(0, 64)
                    return None
                return self._range_key(st, l.src, self._add(l.soff, d), n)
            out = z3.Or(z3.ULE(BV(off, 64) + BV(n, 64), BV(l.dst, 64)),
                        z3.UGE(BV(off, 64), BV(l.dst, 64) + BV(l.n, 64)), BV(n, 64) == 0)
            if not self.must(st, out):
                return None
        if o.init[0] == 'array':
            return o.init[1], BV(off, 64)
        if o.init[0] == 'zero':
            return self.zero_arr, BV(off, 64)
        return None

    def range_eq(self, st, p, q, n):
        """Bool: n bytes at p equal n bytes at q"""
        if type(n) is int:
            if n == 0:
                return True
            ca = self._chunk_id(st, p, n)
            cb = self._chunk_id(st, q, n)
            if ca is not None and ca == cb:
                return True
            if n > 256 and (type(p.off) is not int or type(q.off) is not int):
                return self._lazy_eq(st, p, q, n)
            es, fs = self.entries(st, p, n), self.entries(st, q, n)
            return self.eq_entries(es, fs)
        return self._lazy_eq(st, p, q, n)

    def _chunk_id(self, st, p, n):
        r = self.range_key(st, p, n)
        if r is None:
            return None
        return (r[0].id, str(z3.simplify(r[1])), n if type(n) is int else n.get_id())

    def eq_entries(self, es, fs):
        n = len(es)
        conj = []
        i = 0
        while i < n:
            e, f = es[i], fs[i]
            if type(e) is tuple and type(f) is tuple and e[1] == f[1] and e[2] == f[2]:
                j = i + 1
                while j < n and type(es[j]) is tuple and type(fs[j]) is tuple and es[j][0] is e[0] and \
                        fs[j][0] is f[0] and es[j][1] == e[1] + j - i and fs[j][1] == f[1] + j - i:
                    j += 1
                if not _same(e[0], f[0]):
                    hi, lo = 8 * (e[1] + j - i) - 1, 8 * e[1]
                    a = self.addr(e[0]) if type(e[0]) in (Ptr, PIte) else e[0]
                    b = self.addr(f[0]) if type(f[0]) in (Ptr, PIte) else f[0]
                    conj.append(BV(extract(hi, lo, a), hi - lo + 1) == BV(extract(hi, lo, b), hi - lo + 1))
                i = j
                continue
            if type(e) is int and type(f) is int:
                if e != f:
                    return False
                i += 1
                continue
            # run of constants against a run of one value
            g, h = (e, f) if type(e) is tuple else (f, e)
            gs, hs = (es, fs) if type(e) is tuple else (fs, es)
            if type(g) is tuple and type(h) is int:
                j = i + 1
                while j < n and type(gs[j]) is tuple and gs[j][0] is g[0] and gs[j][1] == g[1] + j - i and \
                        type(hs[j]) is int:
                    j += 1
                v = g[0]
                if type(v) in (Ptr, PIte):
                    v = self.addr(v)
                x = extract(8 * (g[1] + j - i) - 1, 8 * g[1], v)
                c = int.from_bytes(bytes(hs[i:j]), 'little')
                if type(x) is int:
                    if x != c:
                        return False
                else:
                    conj.append(x == z3.BitVecVal(c, 8 * (j - i)))
                i = j
                continue
            a, b = self.entry_bv(e), self.entry_bv(f)
            if type(a) is int and type(b) is int:
                if a != b:
                    return False
            else:
                conj.append(BV(a, 8) == BV(b, 8))
            i += 1
        if not conj:
            return True
        return z3.simplify(z3.And(*conj)) if len(conj) > 1 else conj[0]

    def _lazy_eq(self, st, p, q, n):
        r, s = self.range_key(st, p, n), self.range_key(st, q, n)
        if r is None or s is None:
            raise Unsupported('comparison of ranges with symbolic length outside plain inputs')
        return self.arr_range_eq(r[0], r[1], s[0], s[1], BV(n, 64))

    def sel(self, arr, off):
        """byte of an input array: a fresh variable per (base term, constant) offset.

        Two offsets that coincide only semantically are linked lazily, in `refine`;
        until then the variables are unrelated, which only adds behaviours."""
        if arr.const is not None:
            return arr.const
        off = norm(z3.simplify(off, som=True)) if isz(off) else off
        if arr.view and type(off) is int:
            arr, off = arr.resolve(off, 1)
        base, c = split_off(off)
        k = (None if base is None else base.get_id(), c)
        r = arr.reads.get(k)
        if r is None and arr.pins:
            for (pb, pc, pv) in arr.pins:
                if c == pc and (base is pb or base is not None and pb is not None and base.eq(pb)):
                    return pv
        if r is None:
            name = arr.name + ('[%d]' % c if base is None else '[%s%+d]' % (self.base_name(base), c))
            r = arr.reads[k] = Read(arr, BV(off, 64), z3.BitVec(name, 8), base)
        return r.var

    def canonical(self, arr, off, n):
        if arr.view and z3.is_bv_value(off) and z3.is_bv_value(n):
            arr, o = arr.resolve(off.as_long(), n.as_long())
            off = bvc(o)
        return arr, off

    def base_name(self, base):
        i = base.get_id()
        n = self.bases.get(i)
        if n is None:
            n = self.bases[i] = ('b%d' % len(self.bases), base)
        return n[0]

    def arr_range_eq(self, A, a, B, b, n):
        """Bool: A[a..a+n] == B[b..b+n].  If false a witness position differs (axiom);
        if true equality at the positions that are read is instantiated in `refine`."""
        a, b, n = z3.simplify(a, som=True), z3.simplify(b, som=True), z3.simplify(n)
        A, a = self.canonical(A, a, n)
        B, b = self.canonical(B, b, n)
        if A is B and a.eq(b):
            return True
        if (A.id, a.get_id()) > (B.id, b.get_id()):
            A, a, B, b = B, b, A, a
        for R in self.range_eqs:
            if R['A'] is A and R['B'] is B and R['a'].eq(a) and R['b'].eq(b) and R['n'].eq(n):
                return R['E']
        k = len(self.range_eqs)
        E = z3.Bool('rangeeq!%d' % k)
        w = z3.BitVec('diff!%d' % k, 64)
        R = dict(A=A, a=a, B=B, b=b, n=n, E=E, w=w, done=set())
        self.range_eqs.append(R)
        self.axioms.append(z3.Or(E, z3.And(z3.ULT(w, n), BV(self.sel(A, a + w), 8) != BV(self.sel(B, b + w), 8))))
        self.axioms.append(z3.Implies(n == 0, E))
        if A is B:
            self.axioms.append(z3.Implies(a == b, E))
        # ranges over the same two inputs: where one has its difference, the other cannot be equal
        for S in self.range_eqs[:-1]:
            if S['A'] is A and S['B'] is B and (split_off(a)[0] is None) == (split_off(S['a'])[0] is None):
                d, e = norm(z3.simplify(a - S['a'], som=True)), norm(z3.simplify(b - S['b'], som=True))
                if type(d) is int and d == e:
                    for R1, R2, g in ((R, S, d), (S, R, -d & mask(64))):
                        # E1 and the witness of R2 inside R1: impossible unless R2 is equal too
                        k1 = norm(z3.simplify(R2['w'] - g, som=True))
                        self.axioms.append(z3.Implies(z3.And(R1['E'], z3.Not(R2['E'])),
                                                      z3.UGE(BV(k1, 64), R1['n'])))
        return E

    # ------------------------------------------------------------ deciding with lazily added facts
    def decide(self, conds, rounds=1500, hashes=True):
        """sat / unsat of the conjunction, with the facts about arrays and hashes added on demand"""
        conds = [c for c in conds if not z3.is_true(c)]
        self.stats['queries'] += 1
        for _ in range(rounds):
            r, m = self.check_fresh(conds)
            if r == 'unknown':
                raise SolverUnknown('solver gave up')
            if r == 'unsat':
                return 'unsat', None
            new = self.refine(m, hashes)
            if not new:
                return 'sat', m
            self.stats['refinements'] = self.stats.get('refinements', 0) + len(new)
            self.axioms += new
        raise SolverUnknown('no convergence')

    def refine(self, m, hashes=True):
        """facts violated by the model m"""
        def ev(x):
            return x if type(x) is int else m.eval(x, model_completion=True).as_long()
        new = []
        table = {}
        arrs = {}
        for A in self.arrays:
            t = table[A.id] = {}
            arrs[A.id] = A
            pinned = {}
            for b, c, v in A.pins:
                o = (c + (0 if b is None else ev(b))) & mask(64)
                pinned[o] = (b, c, v)
                t[o] = (v, Read(A, bvc(c & mask(64)) if b is None else b + bvc(c & mask(64)), v, b))
            for r in list(A.reads.values()):
                o = ev(r.off)
                v = ev(r.var)
                q = t.get(o)
                if o in pinned and pinned[o][2] != v:
                    b, c, pv = pinned[o]
                    new.append(z3.Implies(r.off == (bvc(c) if b is None else b + c), r.var == pv))
                    new += self.spread(r, ev)
                elif o in pinned:
                    pass
                elif q is None:
                    t[o] = (v, r)
                elif q[0] != v:
                    new.append(z3.Implies(q[1].off == r.off, q[1].var == r.var))
                    new += self.spread(q[1], ev) + self.spread(r, ev)
        # range equalities that hold in the model: every known byte must agree with its counterpart
        virtual = {}
        changed = True
        first = True
        while changed and (first or not new):
            changed = first = False
            for R in self.range_eqs:
                if not z3.is_true(m.eval(R['E'], model_completion=True)):
                    continue
                n = ev(R['n'])
                if n == 0:
                    continue
                for X, x, Y, y in ((R['A'], R['a'], R['B'], R['b']), (R['B'], R['b'], R['A'], R['a'])):
                    if X.const is not None:
                        continue
                    xv, yv = ev(x), ev(y)
                    src = [(o, v, r) for o, (v, r) in table[X.id].items()] + \
                        [(o, v, r) for (i, o), (v, r) in virtual.items() if i == X.id]
                    for o, v, r in src:
                        d = (o - xv) & mask(64)
                        if d >= n:
                            continue
                        po = (yv + d) & mask(64)
                        if Y.const is not None:
                            w = Y.const
                        else:
                            q = table[Y.id].get(po) or virtual.get((Y.id, po))
                            if q is None:
                                virtual[(Y.id, po)] = (v, None)
                                if r is not None:
                                    # keep a symbolic handle on the position through this range
                                    virtual[(Y.id, po)] = (v, (r, x, y))
                                changed = True
                                continue
                            w = q[0]
                        if w != v:
                            off = self._read_off(r)
                            new.append(self._inst(R, X, x, Y, y, off))
                            if Y.const is None and not isinstance(q[1], Read):
                                # the counterpart value came through another range: name that byte
                                new.append(self._inst_virtual(q[1], Y))
        if new:
            return [c for c in new if c is not None]
        e = getattr(self, 'env', None)
        if e is not None and hashes:
            new = e.refine(m, ev)
        return new

    def spread(self, r, ev):
        """a byte read at the position where two ranges differ: when it coincides with other
        bytes again and again, tie it to every byte of the range at once"""
        if not isinstance(r, Read) or r.base is None:
            return []
        out = []
        n = self.slides[r.var.get_id()] = self.slides.get(r.var.get_id(), 0) + 1
        if n in (4, 40):
            out += [z3.Implies(q.off == r.off, q.var == r.var) for q in r.arr.reads.values() if q.base is None]
        for R in self.diffs_in(r.base):
            R['slides'] = R.get('slides', 0) + 1
            n = ev(R['n'])
            at = R.get('spread', 0)
            if R['slides'] < 3 or n <= at or n > 1300:
                continue
            R['spread'] = n
            for X, x in ((R['A'], R['a']), (R['B'], R['b'])):
                if X.const is None:
                    v = BV(self.sel(X, x + R['w']), 8)
                    out += [z3.Implies(R['w'] == i, v == BV(self.sel(X, x + i), 8)) for i in range(at, n)]
            for S in self.range_eqs:
                if S is R:
                    continue
                for S1, s1, S2, s2 in ((S['A'], S['a'], S['B'], S['b']), (S['B'], S['b'], S['A'], S['a'])):
                    if S1 is R['A'] and S2 is R['B']:
                        d, e = (norm(z3.simplify(p - q, som=True)) for p, q in ((R['a'], s1), (R['b'], s2)))
                        if type(d) is int and d == e:
                            out += [z3.Implies(z3.And(S['E'], z3.ULT(bvc((d + i) & mask(64)), S['n'])),
                                               BV(self.sel(R['A'], R['a'] + i), 8) == BV(self.sel(R['B'], R['b'] + i), 8))
                                    for i in range(at, n) if (d + i) & mask(64) < ev(S['n'])]
        return out

    def diffs_in(self, base):
        k = base.get_id()
        if k not in self._diffs:
            seen, todo, found = set(), [base], []
            while todo:
                t = todo.pop()
                if t.get_id() in seen:
                    continue
                seen.add(t.get_id())
                if z3.is_const(t):
                    if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith('diff!'):
                        found.append(int(t.decl().name()[5:]))
                else:
                    todo += t.children()
            self._diffs[k] = (base, found)
        return [self.range_eqs[i] for i in self._diffs[k][1]]

    def _read_off(self, r):
        if isinstance(r, Read):
            return r.off
        rr, x, y = r
        return self._read_off(rr) - x + y

    def _inst(self, R, X, x, Y, y, off):
        k = off - x
        return z3.Implies(z3.And(R['E'], z3.ULT(k, R['n'])), BV(self.sel(X, off), 8) == BV(self.sel(Y, y + k), 8))

    def _inst_virtual(self, h, Y):
        r, x, y = h
        off = self._read_off(r)
        src = None
        out = []
        for R in self.range_eqs:
            for X2, x2, Y2, y2 in ((R['A'], R['a'], R['B'], R['b']), (R['B'], R['b'], R['A'], R['a'])):
                if Y2 is Y and x2.eq(x) and y2.eq(y):
                    out.append(self._inst(R, X2, x2, Y2, y2, off))
        return z3.And(*out) if out else None

    # ------------------------------------------------------------ globals
    def global_ptr(self, name):
        i = self.globobj.get(name)
        if i is not None:
            return Ptr(i, 0)
        if name in self.mod.fraw or name in self.mod.decls:
            i = self.new_id()
            self.globobj[name] = i
            self.funcptr[i] = name
            self.objs0[i] = Obj(i, 0, ('undef',), ro=True, kind='function')
            return Ptr(i, 0)
        t, init, const = self.mod.glob(name)
        if t == 'alias':
            return self.const_op(PTR, init)
        i = self.new_id()
        self.globobj[name] = i
        sz = size_of(t)
        o = Obj(i, sz, ('zero',), ro=const, kind='global ' + name)
        self.objs0[i] = o
        d = {}
        if init is not None:
            self._init(d, 0, t, init)
            o.layers = [d]
        if not const:
            # mutable statics: contents unknown to us; only std internals
            o.kind = 'mutable global ' + name
        return Ptr(i, 0)

    def _init(self, d, off, t, o):
        k = o[0]
        if k in ('zero', 'undef'):
            return
        if k == 'bytes':
            for j, x in enumerate(o[1]):
                d[off + j] = x
            return
        if k == 'agg':
            for j, (tt, x) in enumerate(o[1]):
                self._init(d, off + field_offset(t, j), tt, x)
            return
        v = self.const_op(t, o)
        n = size_of(t)
        if type(v) is float:
            import struct
            v = int.from_bytes(struct.pack('<d', v), 'little')
        for j, e in enumerate(self.val_entries(v, n)):
            d[off + j] = e

    def const_op(self, t, o):
        k = o[0]
        if k == 'C':
            return o[1]
        if k == 'G':
            return self.global_ptr(o[1])
        if k == 'null':
            return 0
        if k == 'undef':
            if type(t) is tuple and t[0] == 'st':
                return [self.const_op(x, o) for x in t[1]]
            if type(t) is tuple and t[0] in ('arr', 'vec'):
                return [UNDEF] * t[1]
            return UNDEF
        if k == 'zero':
            if type(t) is tuple and t[0] == 'st':
                return [self.const_op(x, o) for x in t[1]]
            if type(t) is tuple and t[0] in ('arr', 'vec'):
                return [self.const_op(t[2], o) for _ in range(t[1])]
            return 0
        if k == 'F':
            return o[1]
        if k == 'agg':
            return [self.const_op(tt, x) for tt, x in o[1]]
        if k == 'cexpr':
            if o[1] == 'gep':
                ops = o[3]
                base = self.const_op(*ops[0])
                return self.gep(base, self.gep_off(o[2], [(tt, self.const_op(tt, x)) for tt, x in ops[1:]]))
            if o[1] == 'ptrtoint':
                return self.addr(self.const_op(*o[2]))
            if o[1] == 'inttoptr':
                return self.to_ptr(self.const_op(*o[2]))
            if o[1] == 'bitcast':
                return self.const_op(*o[2])
            if o[1] in ('sub', 'add', 'xor', 'mul'):
                w = o[2][0][1]
                return self.binop(o[1], w, self.const_op(*o[2]), self.const_op(*o[3]))
        if k == 'bytes':
            return list(o[1])
        raise Unsupported('constant %r' % (o,))

    def gep_off(self, t, idx):
        off = 0
        first = True
        for (it, v) in idx:
            if first:
                sz = size_of(t)
                first = False
            elif t[0] == 'st':
                off = self._add(off, field_offset(t, v))
                t = t[1][v]
                continue
            else:
                t = t[2]
                sz = size_of(t)
            w = it[1]
            if type(v) is int:
                off = self._add(off, (sgn(v, w) * sz) & mask(64))
            else:
                if v is UNDEF:
                    v = self.sym('undef', w)
                if w < 64:
                    v = z3.SignExt(64 - w, v)
                off = self._add(off, v * sz if sz != 1 else v)
        return off

    # ------------------------------------------------------------ operations
    def bvof(self, v, w):
        if type(v) is int:
            return z3.BitVecVal(v, w)
        if v is UNDEF:
            return self.sym('undef', w)
        if type(v) in (Ptr, PIte):
            return BV(self.addr(v), w)
        return v

    def boolof(self, v):
        if type(v) is int:
            return z3.BoolVal(bool(v))
        if v is UNDEF:
            return self.symbool('undef')
        return v

    def binop(self, op, w, a, b):
        if type(a) in (Ptr, PIte):
            a = self.addr(a)
        if type(b) in (Ptr, PIte):
            b = self.addr(b)
        if a is UNDEF or b is UNDEF:
            if a is UNDEF and b is UNDEF:
                return UNDEF
            a = self.sym('undef', w) if a is UNDEF and w > 1 else a
            b = self.sym('undef', w) if b is UNDEF and w > 1 else b
        ia, ib = type(a) is int, type(b) is int
        if ia and ib:
            return self.binop_c(op, w, a, b)
        if w == 1:
            x, y = self.boolof(a), self.boolof(b)
            if op == 'and' or op == 'mul':
                if ia:
                    return b if a else 0
                if ib:
                    return a if b else 0
                return z3.And(x, y)
            if op == 'or':
                if ia:
                    return 1 if a else b
                if ib:
                    return 1 if b else a
                return z3.Or(x, y)
            if op in ('xor', 'add', 'sub'):
                if ia:
                    return z3.Not(y) if a else y
                if ib:
                    return z3.Not(x) if b else x
                return z3.Xor(x, y)
            raise Unsupported('i1 ' + op)
        if op == 'and':
            if ia and a == 0 or ib and b == 0:
                return 0
            if ia and a == mask(w):
                return b
            if ib and b == mask(w):
                return a
            if ib or ia:
                # low mask of a zero-extended / narrower value
                v, m = (a, b) if ib else (b, a)
                if m & (m + 1) == 0:
                    n = m.bit_length()
                    x = extract(n - 1, 0, v)
                    if type(x) is int:
                        return x
                    return z3.ZeroExt(w - n, x)
        elif op in ('or', 'xor', 'add'):
            if ia and a == 0:
                return b
            if ib and b == 0:
                return a
        elif op == 'sub':
            if ib and b == 0:
                return a
        elif op == 'mul':
            if ia and a == 0 or ib and b == 0:
                return 0
            if ia and a == 1:
                return b
            if ib and b == 1:
                return a
        elif op in ('shl', 'lshr', 'ashr') and ib and b == 0:
            return a
        A, B = BV(a, w), BV(b, w)
        if op == 'add':
            return A + B
        if op == 'sub':
            return A - B
        if op == 'mul':
            return A * B
        if op == 'and':
            return A & B
        if op == 'or':
            return A | B
        if op == 'xor':
            return A ^ B
        if op == 'shl':
            return A << B
        if op == 'lshr':
            if ib:
                if b >= w:
                    return 0
                x = extract(w - 1, b, a)
                return x if type(x) is int else z3.ZeroExt(b, x)
            return z3.LShR(A, B)
        if op == 'ashr':
            return A >> B
        if op == 'udiv':
            return z3.UDiv(A, B)
        if op == 'urem':
            return z3.URem(A, B)
        if op == 'sdiv':
            return A / B
        if op == 'srem':
            return z3.SRem(A, B)
        raise Unsupported(op)

    def binop_c(self, op, w, a, b):
        m = mask(w)
        if op == 'add':
            return (a + b) & m
        if op == 'sub':
            return (a - b) & m
        if op == 'mul':
            return (a * b) & m
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op == 'shl':
            return (a << b) & m if b < w else 0
        if op == 'lshr':
            return a >> b if b < w else 0
        if op == 'ashr':
            return (sgn(a, w) >> min(b, w - 1)) & m
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if b == 0:
                raise Unsupported('division by zero')
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            x, y = sgn(a, w), sgn(b, w)
            q = abs(x) // abs(y)
            q = -q if (x < 0) != (y < 0) else q
            return (q if op == 'sdiv' else x - q * y) & m
        raise Unsupported(op)

    def icmp(self, pred, w, a, b):
        """-> int 0/1 or z3 Bool"""
        if type(a) in (Ptr, PIte) or type(b) in (Ptr, PIte):
            if type(a) is PIte:
                x, y = self.icmp(pred, w, a.a, b), self.icmp(pred, w, a.b, b)
                return self.simp_if(a.c, x, y)
            if type(b) is PIte:
                x, y = self.icmp(pred, w, a, b.a), self.icmp(pred, w, a, b.b)
                return self.simp_if(b.c, x, y)
            if type(a) is Ptr and type(b) is Ptr:
                if a.obj == b.obj:
                    a, b = a.off, b.off
                    if type(a) is int:
                        a &= mask(64)
                    if type(b) is int:
                        b &= mask(64)
                elif pred in ('eq', 'ne') and not (type(a.off) is int and type(b.off) is int):
                    return 1 if pred == 'ne' else 0
                else:
                    a, b = self.addr(a), self.addr(b)
            else:
                p, q = (a, b) if type(a) is Ptr else (b, a)
                if type(q) is int and q < SLOT and pred in ('eq', 'ne'):
                    return 1 if pred == 'ne' else 0
                a, b = self.addr(a), self.addr(b)
        if a is UNDEF or b is UNDEF:
            return self.symbool('undef')
        if type(a) is int and type(b) is int:
            if pred[0] == 's':
                a, b = sgn(a, w), sgn(b, w)
            r = {'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b,
                 'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b}[pred]
            return 1 if r else 0
        if w == 1:
            x, y = self.boolof(a), self.boolof(b)
            if pred == 'eq':
                return x == y
            if pred == 'ne':
                return z3.Xor(x, y)
            if pred == 'ult':
                return z3.And(z3.Not(x), y)
            if pred == 'ugt':
                return z3.And(x, z3.Not(y))
            raise Unsupported('i1 icmp ' + pred)
        if isz(a) and isz(b) and a.eq(b):
            return 1 if pred in ('eq', 'ule', 'uge', 'sle', 'sge') else 0
        A, B = BV(a, w), BV(b, w)
        if pred == 'eq':
            return A == B
        if pred == 'ne':
            return A != B
        if pred == 'ult':
            return z3.ULT(A, B)
        if pred == 'ule':
            return z3.ULE(A, B)
        if pred == 'ugt':
            return z3.UGT(A, B)
        if pred == 'uge':
            return z3.UGE(A, B)
        if pred == 'slt':
            return A < B
        if pred == 'sle':
            return A <= B
        if pred == 'sgt':
            return A > B
        return A >= B

    def simp_if(self, c, x, y):
        if type(x) is int and type(y) is int:
            if x == y:
                return x
            return c if x else z3.Not(c)
        return z3.simplify(z3.If(c, self.boolof(x), self.boolof(y)))

    def cast(self, op, t, v, to):
        if op == 'bitcast':
            if type(t) is tuple and t[0] == 'vec' and is_int(to):
                w = t[2][1]
                parts = [((self.boolof(x) if w == 1 else x), w) for x in reversed(v)]
                if w == 1:
                    parts = [(x if type(x) is int else z3.If(x, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), 1)
                             for x in reversed(v)]
                r = norm(concat_parts([(self.sym('undef', w) if x is UNDEF else x, w) for x, w in parts]))
                if to[1] == 1:
                    return r if type(r) is int else r == 1
                return r
            if is_int(t) and type(to) is tuple and to[0] == 'vec':
                w = to[2][1]
                return [extract(w * i + w - 1, w * i, v) for i in range(to[1])]
            if t == to or (t == PTR and to == PTR):
                return v
            if is_int(t) and to in ('double',) or t == 'double' and is_int(to):
                import struct
                if type(v) is int:
                    return struct.unpack('<d', v.to_bytes(8, 'little'))[0]
                if type(v) is float:
                    return int.from_bytes(struct.pack('<d', v), 'little')
                return v
            if type(t) is tuple and type(to) is tuple and t[0] == 'vec' and to[0] == 'vec':
                x = self.cast('bitcast', t, v, ('i', bits_of(t[2]) * t[1]))
                return self.cast('bitcast', ('i', bits_of(t[2]) * t[1]), x, to)
            raise Unsupported('bitcast %r %r' % (t, to))
        if type(t) is tuple and t[0] == 'vec':
            return [self.cast(op, t[2], x, to[2]) for x in v]
        if op == 'ptrtoint':
            # keep the pointer when the width is full so that provenance survives
            if to == ('i', 64):
                return v
            v = self.addr(v)
            return extract(to[1] - 1, 0, v)
        if op == 'inttoptr':
            if type(v) in (Ptr, PIte):
                return v
            return self.to_ptr(v)
        if v is UNDEF:
            return UNDEF
        if op == 'trunc':
            if type(v) in (Ptr, PIte):
                v = self.addr(v)
            w = to[1]
            if w == 1:
                if type(v) is int:
                    return v & 1
                x = extract(0, 0, v)
                return x if type(x) is int else self.bit2bool(v, x)
            return norm(extract(w - 1, 0, v))
        if op in ('zext', 'sext'):
            w0, w = t[1], to[1]
            if type(v) is int:
                return v if op == 'zext' else sgn(v, w0) & mask(w)
            if w0 == 1:
                return z3.If(v, z3.BitVecVal(1 if op == 'zext' else mask(w), w), z3.BitVecVal(0, w))
            return z3.ZeroExt(w - w0, v) if op == 'zext' else z3.SignExt(w - w0, v)
        if op == 'uitofp':
            if type(v) is int:
                return float(v)
            return FloatInt(z3.ZeroExt(64 - v.size(), v) if v.size() < 64 else v)
        if op == 'fptoui':
            if type(v) is float:
                return int(v)
            return v.bv
        raise Unsupported('cast ' + op)

    def bit2bool(self, v, x):
        s = z3.simplify(x == z3.BitVecVal(1, 1))
        return 1 if z3.is_true(s) else 0 if z3.is_false(s) else s

    def fbin(self, st, op, a, b):
        if type(a) is float and type(b) is float:
            return {'fadd': a + b, 'fsub': a - b, 'fmul': a * b, 'fdiv': a / b if b else float('inf')}[op]
        if op == 'fmul':
            if type(a) is float:
                a, b = b, a
            if type(a) is FloatInt and type(b) is float and b == int(b) and 0 < b < 1 << 20:
                k = int(b)
                lim = (1 << 53) // k
                if not self.must(st, z3.ULT(a.bv, z3.BitVecVal(lim, 64))):
                    raise Unsupported('float product may round')
                return FloatInt(a.bv * k)
        raise Unsupported('float op ' + op)

    # ------------------------------------------------------------ execution
    def operand(self, fr, t, o):
        if o[0] == 'L':
            try:
                return fr.regs[o[1]]
            except KeyError:
                raise Unsupported('undefined register %s in %s' % (o[1], fr.f.name))
        if o[0] == 'C':
            return o[1]
        if o[0] == 'agg' and any(x[0] == 'L' for _, x in o[1]):
            return [self.operand(fr, tt, x) for tt, x in o[1]]
        return self.const_op(t, o)

    def frame_for(self, name):
        f = self.mod.func(name)
        a = self.an.get(name)
        if a is None:
            a = self.an[name] = llir.Analysis(f)
            a.types = {}
            for n, t in f.params:
                a.types[n] = t
            for b in f.blocks.values():
                for I in b.phis:
                    a.types[I.dst] = I.ty
                for I in b.insts:
                    if I.dst:
                        a.types[I.dst] = self.result_type(I)
            self.fids[name] = len(self.fids)
            self.encoded.add(name)
        fr = Frame(f, a, self.fids[name])
        b0 = f.order[0]
        for e in a.path[b0]:
            if type(e) is tuple:
                fr.loops = dict(fr.loops)
                fr.loops[e[1]] = 0
        return fr

    def result_type(self, I):
        op = I.op
        if op in ('icmp', 'fcmp'):
            if type(I.ty) is tuple and I.ty[0] == 'vec':
                return ('vec', I.ty[1], ('i', 1))
            return ('i', 1)
        if op in llir.CASTS:
            return I.a[1]
        if op in ('alloca', 'getelementptr'):
            return PTR
        if op == 'extractvalue':
            t = I.ty
            for i in I.a[1]:
                t = t[1][i] if t[0] == 'st' else t[2]
            return t
        if op == 'extractelement':
            return I.ty[2]
        if op == 'shufflevector':
            return ('vec', I.a[2][1], I.ty[2])
        return I.ty

    def widths(self, t):
        """width spec for ite()"""
        if is_int(t):
            return t[1]
        if t == PTR or t in ('double', 'float'):
            return 64
        if type(t) is tuple and t[0] == 'st':
            return [self.widths(x) for x in t[1]]
        if type(t) is tuple and t[0] in ('vec', 'arr'):
            return [self.widths(t[2])] * t[1]
        return 64

    def run(self, st, name, args):
        """run function `name` from state st; returns the list of outcomes"""
        fr = self.frame_for(name)
        for (n, t), v in zip(fr.f.params, args):
            fr.regs[n] = v
        st.frames = [fr]
        self.outcomes = []
        self.heap = []
        self.seq = 0
        self.push(st)
        while self.heap:
            k, _, s = heapq.heappop(self.heap)
            group = [s]
            while self.heap and self.heap[0][0] == k:
                group.append(heapq.heappop(self.heap)[2])
            if len(group) > 1:
                acc = [group[0]]
                for g in group[1:]:
                    for i, a in enumerate(acc):
                        m = self.merge(a, g)
                        if m is not None:
                            acc[i] = m
                            break
                    else:
                        acc.append(g)
                self.stats['merges'] += len(group) - len(acc)
                for extra in acc[1:]:
                    self.seq += 1
                    heapq.heappush(self.heap, (k, self.seq, extra))
                s = acc[0]
                if len(acc) > 1:
                    # not mergeable: make sure each one runs (keys tie) without re-merging forever
                    rest = []
                    while self.heap and self.heap[0][0] == k:
                        rest.append(heapq.heappop(self.heap)[2])
                    for r in [s] + rest:
                        self.exec(r)
                    continue
            self.exec(s)
        return self.outcomes

    def push(self, st):
        self.seq += 1
        heapq.heappush(self.heap, (st.key(), self.seq, st))
        if len(self.heap) > self.stats['maxstates']:
            self.stats['maxstates'] = len(self.heap)

    # -------------------------------------------------- merging
    def merge(self, a, b):
        if self.nomerge or len(a.frames) != len(b.frames):
            return None
        for x, y in zip(a.frames, b.frames):
            if x.f is not y.f or x.block != y.block or x.idx != y.idx or x.allocas != y.allocas:
                return None
        L = lca(a.pc, b.pc)
        ca, cb = a.pc.conds(L), b.pc.conds(L)
        c = z3.And(*ca) if len(ca) != 1 else ca[0]
        d = z3.And(*cb) if len(cb) != 1 else cb[0]
        if not ca or not cb:
            return None
        c = z3.simplify(c)
        m = State.__new__(State)
        m.own = object()
        m.model = a.model or b.model
        m.extra = {}
        for k in set(a.extra) | set(b.extra):
            x, y = a.extra.get(k), b.extra.get(k)
            if x is y:
                m.extra[k] = x
            elif isinstance(x, list) and isinstance(y, list):
                # event lists: guarded union
                n = 0
                while n < len(x) and n < len(y) and x[n] is y[n]:
                    n += 1
                m.extra[k] = x[:n] + [(z3.And(c, g), e) for g, e in x[n:]] + \
                    [(z3.And(z3.Not(c), g), e) for g, e in y[n:]]
            else:
                return None
        disj = z3.simplify(z3.Or(c, d))
        m.pc = L if z3.is_true(disj) else Node(L, disj)
        m.frames = []
        try:
            for i, (x, y) in enumerate(zip(a.frames, b.frames)):
                last = i == len(a.frames) - 1
                fr = x.copy()
                live = x.an.live_at(x.block, x.idx) if last else x.an.live_at(x.block, x.idx + 1)
                regs = {}
                ty = x.an.types
                for r in live:
                    if r not in x.regs or r not in y.regs:
                        if r in x.regs or r in y.regs:
                            if not last and r == self._calldst(x):
                                continue
                        continue
                    u, v = x.regs[r], y.regs[r]
                    regs[r] = u if _same(u, v) else self.ite(c, u, v, self.widths(ty[r]))
                fr.regs = regs
                m.frames.append(fr)
            mem = dict(b.mem)
            for k, o in a.mem.items():
                q = b.mem.get(k)
                if q is None or q is o:
                    mem[k] = o
                else:
                    mem[k] = self.merge_obj(c, o, q, m.own)
        except Unsupported as e:
            if self.verbose:
                print('   no merge:', e)
            return None
        m.mem = mem
        return m

    def _calldst(self, fr):
        return fr.f.blocks[fr.block].insts[fr.idx].dst

    def merge_obj(self, c, a, b, own):
        if a.init is b.init or a.init == b.init:
            n = 0
            la, lb = a.layers, b.layers
            if len(la) == len(lb) and all(x is y for x, y in zip(la[:-1], lb[:-1])) and \
                    (not la or (type(la[-1]) is dict and type(lb[-1]) is dict)) and _same(a.size, b.size):
                o = Obj(a.id, a.size, a.init, a.ro, a.kind)
                o.owner = own
                o.layers = list(la[:-1])
                if la:
                    x, y = la[-1], lb[-1]
                    if x is y:
                        o.layers.append(x)
                        o.owner = None
                    else:
                        o.layers.append(self.merge_dict(c, a, b, x, y))
                return o
            if len(la) <= 1 and len(lb) <= 1 and _same(a.size, b.size) and all(type(x) is dict for x in la + lb):
                o = Obj(a.id, a.size, a.init, a.ro, a.kind)
                o.owner = own
                o.layers = [self.merge_dict(c, a, b, la[0] if la else {}, lb[0] if lb else {})]
                return o
        # generic: lazy conditional content
        size = a.size if _same(a.size, b.size) else self.ite(c, a.size, b.size, 64)
        a.owner = b.owner = None
        o = Obj(a.id, size, ('merge', c, a, b), a.ro, a.kind)
        o.owner = own
        return o

    def merge_dict(self, c, A, B, x, y):
        r = {}
        done = set()
        for k in x.keys() | y.keys():
            if k in done:
                continue
            ea, eb = x.get(k), y.get(k)
            if ea is None:
                ea = self.under(A, k)
            if eb is None:
                eb = self.under(B, k)
            if ea is eb or (type(ea) is int and type(eb) is int and ea == eb):
                r[k] = ea
                continue
            if ea is UNDEF:
                r[k] = eb
                continue
            if eb is UNDEF:
                r[k] = ea
                continue
            pa = type(ea) is tuple and type(ea[0]) in (Ptr, PIte)
            pb = type(eb) is tuple and type(eb[0]) in (Ptr, PIte)
            if pa or pb:
                # whole 8-byte word
                kk = ea[1] if pa else eb[1]
                base = k - kk
                wa = [x.get(base + i) if (base + i) in x else self.under(A, base + i) for i in range(8)]
                wb = [y.get(base + i) if (base + i) in y else self.under(B, base + i) for i in range(8)]
                va, vb = self.combine(wa), self.combine(wb)
                for v in (va, vb):
                    if isz(v):
                        v2 = z3.simplify(v)
                v = self.ite(c, va, vb, 64)
                es = self.val_entries(v, 8)
                for i in range(8):
                    r[base + i] = es[i]
                    done.add(base + i)
                continue
            r[k] = self.merge_entry(c, ea, eb)
        return r

    def under(self, o, k):
        n = len(o.layers) - (1 if o.layers and type(o.layers[-1]) is dict else 0)
        if n == 0 and o.init[0] == 'undef':
            return UNDEF
        s = State.__new__(State)
        s.pc = ROOT
        s.model = None
        return self.read_entry(s, o, k, n)

    # -------------------------------------------------- one state until its next scheduling point
    def edge(self, st, to):
        """take the edge from the current block of the top frame to block `to`"""
        fr = st.frames[-1]
        frm = fr.block
        b = fr.f.blocks[to]
        if b.phis:
            vals = []
            for ph in b.phis:
                for src, o in ph.a[0]:
                    if src == frm:
                        vals.append((ph.dst, self.operand(fr, ph.ty, o)))
                        break
                else:
                    raise Unsupported('phi')
            for d, v in vals:
                fr.regs[d] = v
        # loops
        pf, pt = fr.an.path[frm], fr.an.path[to]
        loops = None
        for i, e in enumerate(pt):
            if type(e) is tuple:
                inside = i < len(pf) and pf[i] == e
                if not inside:
                    loops = dict(fr.loops) if loops is None else loops
                    loops[e[1]] = 0
                elif e[1] == to:
                    loops = dict(fr.loops) if loops is None else loops
                    loops[e[1]] = fr.loops[e[1]] + 1
        if loops is not None:
            fr.loops = loops
        fr.block = to
        fr.idx = 0
        fr._key = None
        live = fr.an.livein[to]
        if len(fr.regs) > len(live):
            fr.regs = {r: v for r, v in fr.regs.items() if r in live}

    def branch(self, st, c):
        """-> (st_true or None, st_false or None)"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return st, None
        if z3.is_false(c):
            return None, st
        nc = z3.Not(c)
        t = f = None
        if st.model is not None:
            e = st.model.eval(c, model_completion=True)
            if z3.is_true(e):
                t = (True, st.model)
            elif z3.is_false(e):
                f = (True, st.model)
        if t is None:
            t = self.feasible(st, c)
        if f is None:
            f = self.feasible(st, nc)
        if t[0] and f[0]:
            self.stats['forks'] += 1
            s2 = st.fork()
            st.pc = Node(st.pc, c)
            st.model = t[1]
            s2.pc = Node(s2.pc, nc)
            s2.model = f[1]
            return st, s2
        if t[0]:
            return st, None
        if f[0]:
            return None, st
        return None, None

    def exec(self, st):
        self.stats['states'] = self.stats.get('states', 0) + 1
        stats = self.stats
        self.cur = st
        while True:
            fr = st.frames[-1]
            blk = fr.f.blocks[fr.block]
            insts = blk.insts
            regs = fr.regs
            while True:
                I = insts[fr.idx]
                op = I.op
                stats['insts'] += 1
                if stats['insts'] > self.step_limit:
                    raise Unsupported('step limit')
                h = HANDLERS.get(op)
                if h is None:
                    raise Unsupported('instruction %s in %s' % (I.text[:80], fr.f.name))
                try:
                    r = h(self, st, fr, I)
                except (Unsupported, IRError) as e:
                    if not getattr(e, 'where', None):
                        e.where = where(st)
                        e.args = (str(e) + '\nat ' + e.where,)
                    raise
                if r is None:
                    fr.idx += 1
                    continue
                break
            if r == 'switch':          # frame or block changed, keep running
                continue
            if r == 'yield':           # pushed to the heap
                return
            if r == 'requeue':
                self.push(st)
                return
            if r == 'dead':
                return

    def goto(self, st, to):
        self.edge(st, to)
        if len(st.frames[-1].f.blocks[to].preds) > 1 and self.heap:
            self.push(st)
            return 'yield'
        return 'switch'

    # resolve a pointer operand to a concrete-object Ptr, forking on PIte
    def deref(self, st, p):
        """returns Ptr; raises Fork"""
        if type(p) is Ptr:
            if type(p.off) is int:
                return self.norm_ptr(p)
            return p
        if type(p) is PIte:
            raise NeedFork(p.c)
        if p is UNDEF:
            raise Unsupported('dereference of undef')
        q = self.to_ptr(norm(z3.simplify(p)) if isz(p) else p)
        if type(q) is Ptr:
            return self.norm_ptr(q)
        if isz(q):
            r = self.from_addr(st, q)
            if r is not None:
                return self.deref(st, r)
        raise Unsupported('dereference of %r' % (p,))

    def finish(self, kind, st, value=None, info=None):
        self.outcomes.append(Outcome(kind, st, value, info))


def _pe(a, b):
    if type(a) is Ptr and type(b) is Ptr:
        return a.obj == b.obj and _same(a.off, b.off)
    return type(a) is int and type(b) is int and a == b


class NeedFork(Exception):
    def __init__(self, c):
        self.c = c


def forking(h):
    """an instruction handler may raise NeedFork(c) before having any effect"""
    def g(ex, st, fr, I):
        try:
            return h(ex, st, fr, I)
        except NeedFork as e:
            a, b = ex.branch(st, e.c)
            for s, val in ((a, True), (b, False)):
                if s is None:
                    continue
                # run the instruction before queueing: equal keys would merge again
                resolve_pites(ex, s, e.c, val)
                f2 = s.frames[-1]
                r = g(ex, s, f2, I)
                if r is None:
                    f2.idx += 1
                if r is None or r == 'switch':
                    ex.push(s)
            return 'yield'
    return g


def resolve_pites(ex, st, c, val):
    """after assuming c == val, replace PIte on c in the registers of the top frame"""
    def f(v):
        if type(v) is PIte:
            if v.c.eq(c):
                return f(v.a if val else v.b)
            return PIte(v.c, f(v.a), f(v.b))
        if type(v) is list:
            return [f(x) for x in v]
        return v
    for fr in st.frames:
        for k, v in list(fr.regs.items()):
            if type(v) is PIte or type(v) is list:
                fr.regs[k] = f(v)
    for i, o in list(st.mem.items()):
        if o.layers and type(o.layers[-1]) is dict:
            l = o.layers[-1]
            ch = {}
            for k, e in l.items():
                if type(e) is tuple and type(e[0]) is PIte and e[1] == 0:
                    nv = f(e[0])
                    if nv is not e[0]:
                        ch[k] = nv
            for k, nv in ch.items():
                if all(type(l.get(k + j)) is tuple and l[k + j][0] is l[k][0] for j in range(8)):
                    w = ex.wobj(st, i)
                    for j, e in enumerate(ex.val_entries(nv, 8)):
                        w.layers[-1][k + j] = e


# ---------------------------------------------------------------- instruction handlers
def h_binop(ex, st, fr, I):
    t = I.ty
    a, b = ex.operand(fr, t, I.a[0]), ex.operand(fr, t, I.a[1])
    if I.op[0] == 'f':
        fr.regs[I.dst] = ex.fbin(st, I.op, a, b)
        return
    if t[0] == 'vec':
        fr.regs[I.dst] = [ex.binop(I.op, t[2][1], x, y) for x, y in zip(a, b)]
        return
    if I.op in ('sub', 'add') and (type(a) is Ptr or type(b) is Ptr):
        if I.op == 'sub' and type(a) is Ptr and type(b) is Ptr and a.obj == b.obj:
            fr.regs[I.dst] = ex._sub(a.off if type(a.off) is not int else a.off & mask(64),
                                     b.off if type(b.off) is not int else b.off & mask(64))
            return
        if type(a) is Ptr and type(b) is int and I.op == 'add':
            fr.regs[I.dst] = ex.gep(a, b)
            return
    if I.op in ('udiv', 'urem', 'sdiv', 'srem') and type(b) is not int:
        if not ex.must(st, b != 0):
            raise Unsupported('division by a possibly zero value')
    fr.regs[I.dst] = ex.binop(I.op, t[1], a, b)


def h_icmp(ex, st, fr, I):
    t = I.ty
    pred = I.a[0]
    a, b = ex.operand(fr, t, I.a[1]), ex.operand(fr, t, I.a[2])
    if type(t) is tuple and t[0] == 'vec':
        w = 64 if t[2] == PTR else t[2][1]
        fr.regs[I.dst] = [ex.icmp(pred, w, x, y) for x, y in zip(a, b)]
        return
    fr.regs[I.dst] = ex.icmp(pred, 64 if t == PTR else t[1], a, b)


def h_fcmp(ex, st, fr, I):
    pred = I.a[0]
    a, b = ex.operand(fr, I.ty, I.a[1]), ex.operand(fr, I.ty, I.a[2])
    if type(a) is float and type(b) is float:
        r = {'oeq': a == b, 'ogt': a > b, 'olt': a < b, 'oge': a >= b, 'ole': a <= b, 'one': a != b,
             'ueq': a == b, 'ult': a < b, 'ugt': a > b, 'une': a != b, 'uno': False, 'ord': True}[pred]
        fr.regs[I.dst] = 1 if r else 0
        return
    A = a.bv if type(a) is FloatInt else BV(int(a), 64) if a == int(a) and a >= 0 else None
    B = b.bv if type(b) is FloatInt else BV(int(b), 64) if b == int(b) and b >= 0 else None
    if A is None or B is None:
        raise Unsupported('fcmp')
    fr.regs[I.dst] = {'eq': A == B, 'gt': z3.UGT(A, B), 'lt': z3.ULT(A, B), 'ge': z3.UGE(A, B), 'le': z3.ULE(A, B),
                      'ne': A != B}[pred[1:]]


def h_cast(ex, st, fr, I):
    fr.regs[I.dst] = ex.cast(I.op, I.ty, ex.operand(fr, I.ty, I.a[0]), I.a[1])


def h_br(ex, st, fr, I):
    if len(I.a) == 1:
        return ex.goto(st, I.a[0])
    c = ex.operand(fr, ('i', 1), I.a[0])
    if type(c) is int:
        return ex.goto(st, I.a[1] if c else I.a[2])
    a, b = ex.branch(st, ex.boolof(c))
    if a is not None and b is not None:
        ex.edge(a, I.a[1])
        ex.edge(b, I.a[2])
        ex.push(a)
        ex.push(b)
        return 'yield'
    if a is None and b is None:
        return 'dead'
    return ex.goto(st, I.a[1] if a is not None else I.a[2])


def h_switch(ex, st, fr, I):
    t = I.ty
    v = ex.operand(fr, t, I.a[0])
    if v is UNDEF:
        raise Unsupported('switch on undef')
    if type(v) is int:
        for c, d in I.a[2]:
            if c == v:
                return ex.goto(st, d)
        return ex.goto(st, I.a[1])
    w = t[1]
    targets = {}
    for c, d in I.a[2]:
        targets.setdefault(d, []).append(v == z3.BitVecVal(c, w))
    default = z3.And(*[v != z3.BitVecVal(c, w) for c, _ in I.a[2]])
    targets.setdefault(I.a[1], []).append(default)
    live = []
    cur = st
    items = list(targets.items())
    for n, (d, cs) in enumerate(items):
        if cur is None:
            break
        c = z3.Or(*cs) if len(cs) > 1 else cs[0]
        if n == len(items) - 1:
            live.append((cur, d))
            break
        a, b = ex.branch(cur, c)
        if a is not None:
            live.append((a, d))
        cur = b
    if not live:
        return 'dead'
    if len(live) == 1 and live[0][0] is st:
        return ex.goto(st, live[0][1])
    for s, d in live:
        ex.edge(s, d)
        ex.push(s)
    return 'yield'


def h_ret(ex, st, fr, I):
    v = None if I.a[0] is None else ex.operand(fr, I.ty, I.a[0])
    st.frames.pop()
    for o in fr.allocas:
        st.mem.pop(o, None)
    if not st.frames:
        ex.finish('ret', st, v)
        return 'dead'
    up = st.frames[-1]
    if fr.dst is not None:
        up.regs[fr.dst] = v
    C = up.f.blocks[up.block].insts[up.idx]
    if C.op == 'invoke':
        return ex.goto(st, C.a[4])
    up.idx += 1
    if ex.heap:
        ex.push(st)
        return 'yield'
    return 'switch'


def h_unreachable(ex, st, fr, I):
    ex.finish('ub', st, None, fr.f.name)
    return 'dead'


def h_load(ex, st, fr, I):
    p = ex.deref(st, ex.operand(fr, PTR, I.a[0]))
    fr.regs[I.dst] = load_typed(ex, st, p, I.ty)


def load_typed(ex, st, p, t):
    if is_int(t):
        w = t[1]
        n = (w + 7) // 8
        v = ex.load(st, p, n)
        if w == 1:
            if v is UNDEF:
                return UNDEF
            return ex.cast('trunc', ('i', 8), v, ('i', 1))
        if w % 8:
            return v if v is UNDEF else extract(w - 1, 0, v)
        return v
    if t == PTR:
        v = ex.load(st, p, 8)
        if type(v) is int:
            v = ex.to_ptr(v)
        elif isz(v):
            v2 = norm(z3.simplify(v))
            v = ex.to_ptr(v2)
            if isz(v):
                p = ex.from_addr(st, v)
                v = v if p is None else p
        return v
    if t == 'double':
        v = ex.load(st, p, 8)
        if type(v) is int:
            import struct
            return struct.unpack('<d', v.to_bytes(8, 'little'))[0]
        return v
    if t[0] == 'vec':
        es = (bits_of(t[2]) + 7) // 8
        return [load_typed(ex, st, ex.gep(p, i * es), t[2]) for i in range(t[1])]
    if t[0] == 'st' or t[0] == 'arr':
        n = len(t[1]) if t[0] == 'st' else t[1]
        return [load_typed(ex, st, ex.gep(p, field_offset(t, i)), t[1][i] if t[0] == 'st' else t[2]) for i in range(n)]
    raise Unsupported('load %r' % (t,))


def store_typed(ex, st, p, t, v):
    if is_int(t):
        n = (t[1] + 7) // 8
        if t[1] == 1:
            v = v if type(v) is int or v is UNDEF else z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        ex.store(st, p, v, n)
    elif t == PTR:
        ex.store(st, p, v, 8)
    elif t == 'double':
        if type(v) is float:
            import struct
            v = int.from_bytes(struct.pack('<d', v), 'little')
        ex.store(st, p, v, 8)
    elif t[0] == 'vec':
        es = (bits_of(t[2]) + 7) // 8
        for i in range(t[1]):
            store_typed(ex, st, ex.gep(p, i * es), t[2], v[i])
    elif t[0] in ('st', 'arr'):
        n = len(t[1]) if t[0] == 'st' else t[1]
        for i in range(n):
            store_typed(ex, st, ex.gep(p, field_offset(t, i)), t[1][i] if t[0] == 'st' else t[2], v[i])
    else:
        raise Unsupported('store %r' % (t,))


def h_store(ex, st, fr, I):
    p = ex.deref(st, ex.operand(fr, PTR, I.a[1]))
    store_typed(ex, st, p, I.ty, ex.operand(fr, I.ty, I.a[0]))


def h_alloca(ex, st, fr, I):
    cnt = ex.operand(fr, ('i', 64), I.a[0])
    key = ('alloca', st.key())
    p = ex.new_obj(st, size_of(I.ty) * cnt, kind='stack', key=key)
    fr.allocas = fr.allocas + (p.obj,)
    fr.regs[I.dst] = p


def h_gep(ex, st, fr, I):
    ops = I.a[0]
    base = ex.operand(fr, ops[0][0], ops[0][1])
    off = ex.gep_off(I.ty, [(t, ex.operand(fr, t, o)) for t, o in ops[1:]])
    fr.regs[I.dst] = ex.gep(base, off)


def h_select(ex, st, fr, I):
    tc, c, a, b = I.a
    c = ex.operand(fr, tc, c)
    a, b = ex.operand(fr, I.ty, a), ex.operand(fr, I.ty, b)
    if type(tc) is tuple and tc[0] == 'vec':
        w = ex.widths(I.ty[2])
        fr.regs[I.dst] = [(x if k else y) if type(k) is int else ex.ite(k, x, y, w) for k, x, y in zip(c, a, b)]
        return
    if type(c) is int:
        fr.regs[I.dst] = a if c else b
        return
    c = z3.simplify(ex.boolof(c))
    if z3.is_true(c):
        fr.regs[I.dst] = a
    elif z3.is_false(c):
        fr.regs[I.dst] = b
    else:
        fr.regs[I.dst] = ex.ite(c, a, b, ex.widths(I.ty))


def h_freeze(ex, st, fr, I):
    v = ex.operand(fr, I.ty, I.a[0])
    if v is UNDEF:
        v = ex.sym('freeze', I.ty[1]) if I.ty[1] > 1 else ex.symbool('freeze')
    fr.regs[I.dst] = v


def h_extractvalue(ex, st, fr, I):
    v = ex.operand(fr, I.ty, I.a[0])
    for i in I.a[1]:
        v = v[i] if v is not UNDEF else UNDEF
    fr.regs[I.dst] = v


def h_insertvalue(ex, st, fr, I):
    v = ex.operand(fr, I.ty, I.a[0])
    x = ex.operand(fr, I.a[1], I.a[2])

    def ins(v, t, idx):
        if v is UNDEF:
            v = ex.const_op(t, ('undef',))
        v = list(v)
        if len(idx) == 1:
            v[idx[0]] = x
        else:
            v[idx[0]] = ins(v[idx[0]], t[1][idx[0]] if t[0] == 'st' else t[2], idx[1:])
        return v
    fr.regs[I.dst] = ins(v, I.ty, I.a[3])


def h_extractelement(ex, st, fr, I):
    v = ex.operand(fr, I.ty, I.a[0])
    i = ex.operand(fr, I.a[1], I.a[2])
    if type(i) is not int:
        raise Unsupported('extractelement')
    fr.regs[I.dst] = v[i]


def h_insertelement(ex, st, fr, I):
    v = list(ex.operand(fr, I.ty, I.a[0]))
    x = ex.operand(fr, I.a[1], I.a[2])
    i = ex.operand(fr, I.a[3], I.a[4])
    v[i] = x
    fr.regs[I.dst] = v


def h_shuffle(ex, st, fr, I):
    a, b = ex.operand(fr, I.ty, I.a[0]), ex.operand(fr, I.ty, I.a[1])
    m = ex.operand(fr, I.a[2], I.a[3])
    ab = list(a) + list(b)
    fr.regs[I.dst] = [UNDEF if k is UNDEF else ab[k] for k in m]


def h_call(ex, st, fr, I):
    callee, args = I.a[0], I.a[1]
    if callee[0] == 'G':
        name = callee[1]
    else:
        p = ex.operand(fr, PTR, callee)
        p = ex.deref(st, p)
        name = ex.funcptr.get(p.obj)
        if name is None:
            raise Unsupported('call through a non-function pointer')
    if name.startswith('llvm.'):
        return intrinsic(ex, st, fr, I, name)
    h = ex.lookup_extern(name)
    if h is not None:
        vals = [ex.operand(fr, t, o) for t, o in args]
        ex.stubbed.add(name)
        r = h(ex, st, vals)
        if isinstance(r, str):
            return r
        if I.dst is not None:
            fr.regs[I.dst] = r
        if I.op == 'invoke':
            return ex.goto(st, I.a[4])
        return None
    if ex.mod.is_noreturn(name):
        ex.finish('panic', st, None, name)
        return 'dead'
    if name not in ex.mod.fraw:
        raise Unsupported('call of unmodelled external function %s' % name)
    vals = [ex.operand(fr, t, o) for t, o in args]
    if len(st.frames) > 200:
        raise Unsupported('call depth')
    nf = ex.frame_for(name)
    for (n, t), v in zip(nf.f.params, vals):
        nf.regs[n] = v
    nf.dst = I.dst
    st.frames.append(nf)
    return 'switch'


def intrinsic(ex, st, fr, I, name):
    b = name[5:]
    args = I.a[1]

    def A(i):
        return ex.operand(fr, args[i][0], args[i][1])
    if b.startswith(('lifetime.end',)):
        p = A(1)
        if type(p) is Ptr and p.off == 0 and p.obj in st.mem:
            o = Obj(p.obj, st.mem[p.obj].size, ('undef',), kind='stack')
            o.owner = st.own
            st.mem[p.obj] = o
        return None
    if b.startswith(('lifetime.start', 'experimental.noalias', 'assume', 'dbg.', 'invariant', 'prefetch',
                     'donothing', 'sideeffect')):
        return None
    if b.startswith(('memcpy', 'memmove')):
        n = A(2)
        if type(n) is int and n == 0:
            return None
        n = norm(z3.simplify(n)) if isz(n) else n
        d, s = A(0), A(1)
        if isz(n) and not (type(d) is Ptr and type(s) is Ptr) and ex.must(st, n == 0):
            return None
        if isz(n) and (type(d) not in (Ptr, PIte) or type(s) not in (Ptr, PIte)):
            # a dangling pointer is only legal for a zero-length copy
            raise NeedFork(n == 0)
        ex.memcpy(st, ex.deref(st, d), ex.deref(st, s), n)
        return None
    if b.startswith('memset'):
        n = A(2)
        if type(n) is int and n == 0:
            return None
        ex.memset(st, ex.deref(st, A(0)), A(1), n)
        return None
    t = I.ty
    if b.startswith(('umin', 'umax', 'smin', 'smax')):
        def f(x, y, w):
            pred = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[b[:4]]
            c = ex.icmp(pred, w, x, y)
            if type(c) is int:
                return x if c else y
            return ex.ite(c, x, y, w)
        x, y = A(0), A(1)
        if t[0] == 'vec':
            fr.regs[I.dst] = [f(p, q, t[2][1]) for p, q in zip(x, y)]
        else:
            fr.regs[I.dst] = f(x, y, t[1])
        return None
    for pre, op in (('uadd.with.overflow', 'add'), ('usub.with.overflow', 'sub'), ('umul.with.overflow', 'mul'),
                    ('sadd.with.overflow', 'sadd'), ('ssub.with.overflow', 'ssub'), ('smul.with.overflow', 'smul')):
        if b.startswith(pre):
            x, y = A(0), A(1)
            w = args[0][0][1]
            if op[0] == 's' and op != 'sub':
                o2 = op[1:]
                r = ex.binop(o2, w, x, y)
                X, Y = ex.bvof(x, w), ex.bvof(y, w)
                e = 2 * w
                wide = {'add': z3.SignExt(w, X) + z3.SignExt(w, Y), 'sub': z3.SignExt(w, X) - z3.SignExt(w, Y),
                        'mul': z3.SignExt(w, X) * z3.SignExt(w, Y)}[o2]
                ov = z3.simplify(wide != z3.SignExt(w, BV(r, w)))
            elif type(x) is int and type(y) is int:
                full = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
                fr.regs[I.dst] = [full & mask(w), 1 if full != full & mask(w) else 0]
                return None
            else:
                r = ex.binop(op, w, x, y)
                X, Y = ex.bvof(x, w), ex.bvof(y, w)
                if op == 'add':
                    ov = z3.ULT(BV(r, w), X)
                elif op == 'sub':
                    ov = z3.ULT(X, Y)
                elif type(y) is int:
                    ov = z3.UGT(X, z3.BitVecVal(mask(w) // y, w)) if y else 0
                elif type(x) is int:
                    ov = z3.UGT(Y, z3.BitVecVal(mask(w) // x, w)) if x else 0
                else:
                    ov = z3.Not(z3.BVMulNoOverflow(X, Y, False))
            if isz(ov):
                ov = z3.simplify(ov)
                ov = 1 if z3.is_true(ov) else 0 if z3.is_false(ov) else ov
            fr.regs[I.dst] = [r, ov]
            return None
    if b.startswith(('uadd.sat', 'usub.sat')):
        x, y = A(0), A(1)
        w = t[1]
        if type(x) is int and type(y) is int:
            fr.regs[I.dst] = min(x + y, mask(w)) if b[1] == 'a' else max(x - y, 0)
            return None
        X, Y = ex.bvof(x, w), ex.bvof(y, w)
        if b[1] == 'a':
            fr.regs[I.dst] = z3.If(z3.ULT(X + Y, X), z3.BitVecVal(mask(w), w), X + Y)
        else:
            fr.regs[I.dst] = z3.If(z3.ULT(X, Y), z3.BitVecVal(0, w), X - Y)
        return None
    if b.startswith(('fshl', 'fshr')):
        x, y, k = A(0), A(1), A(2)
        w = t[1]
        if type(k) is not int:
            raise Unsupported('fshl by symbolic')
        k %= w
        if b[3] == 'r':
            k = (w - k) % w
        if k == 0:
            fr.regs[I.dst] = x if b[3] == 'l' else y
            return None
        if type(x) is int and type(y) is int:
            fr.regs[I.dst] = ((x << k) | (y >> (w - k))) & mask(w)
        else:
            fr.regs[I.dst] = norm(z3.simplify((ex.bvof(x, w) << k) | z3.LShR(ex.bvof(y, w), w - k)))
        return None
    if b.startswith('bswap'):
        x = A(0)
        w = t[1]
        if type(x) is int:
            fr.regs[I.dst] = int.from_bytes(x.to_bytes(w // 8, 'little'), 'big')
        else:
            fr.regs[I.dst] = z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(w // 8)])
        return None
    if b.startswith('fptoui.sat'):
        v = A(0)
        if type(v) is float:
            fr.regs[I.dst] = max(0, min(int(v), mask(t[1]))) if v == v else 0
        elif type(v) is FloatInt:
            fr.regs[I.dst] = v.bv
        else:
            raise Unsupported('fptoui')
        return None
    if b.startswith(('ctpop', 'ctlz', 'cttz')):
        x = A(0)
        w = t[1]
        if type(x) is int:
            if b.startswith('ctpop'):
                r = bin(x).count('1')
            elif b.startswith('ctlz'):
                r = w - x.bit_length()
            else:
                r = w if x == 0 else (x & -x).bit_length() - 1
            fr.regs[I.dst] = r
            return None
        if b.startswith('ctpop'):
            r = z3.BitVecVal(0, w)
            for i in range(w):
                r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, x))
        else:
            r = z3.BitVecVal(w, w)
            rng = range(w) if b.startswith('ctlz') else reversed(range(w))
            for i in rng:
                r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(w - 1 - i if b.startswith('ctlz') else i, w), r)
        fr.regs[I.dst] = r
        return None
    if b.startswith('abs'):
        x = ex.bvof(A(0), t[1])
        fr.regs[I.dst] = norm(z3.simplify(z3.If(x < 0, -x, x)))
        return None
    if b.startswith('expect'):
        fr.regs[I.dst] = A(0)
        return None
    if b.startswith(('ucmp', 'scmp')):
        x, y = A(0), A(1)
        w = args[0][0][1]
        lt = ex.icmp('ult' if b[0] == 'u' else 'slt', w, x, y)
        gt = ex.icmp('ugt' if b[0] == 'u' else 'sgt', w, x, y)
        rw = t[1]
        r = ex.ite(ex.boolof(gt), 1, 0, rw) if type(gt) is not int else gt
        fr.regs[I.dst] = (mask(rw) if lt else r) if type(lt) is int else ex.ite(lt, mask(rw), r, rw)
        return None
    if b.startswith('vector.reduce.'):
        op = b.split('.')[2]
        v = A(0)
        et = args[0][0][2]
        r = v[0]
        for x in v[1:]:
            r = ex.binop(op, et[1], r, x)
        fr.regs[I.dst] = r
        return None
    if b.startswith('trap'):
        ex.finish('panic', st, None, 'llvm.trap')
        return 'dead'
    if b.startswith('objectsize') or b.startswith('is.constant'):
        fr.regs[I.dst] = 0
        return None
    raise Unsupported('intrinsic ' + name)


HANDLERS = {'icmp': forking(h_icmp), 'fcmp': h_fcmp, 'br': h_br, 'switch': h_switch, 'ret': h_ret,
            'unreachable': h_unreachable, 'load': forking(h_load), 'store': forking(h_store), 'alloca': h_alloca,
            'getelementptr': h_gep, 'select': h_select, 'freeze': h_freeze, 'extractvalue': h_extractvalue,
            'insertvalue': h_insertvalue, 'extractelement': h_extractelement, 'insertelement': h_insertelement,
            'shufflevector': h_shuffle, 'call': forking(h_call), 'invoke': forking(h_call)}
for _o in llir.BINOPS:
    HANDLERS[_o] = h_binop
for _o in llir.CASTS:
    HANDLERS[_o] = h_cast


def where(st):
    """call stack with the current instructions, for diagnostics"""
    return '\n'.join('%s %s: %s' % (f.f.name[:90], f.block, f.f.blocks[f.block].insts[f.idx].text.strip()[:200]) for f in st.frames)
