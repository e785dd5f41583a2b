"""Model of the on-chain environment: the heap, the syscalls and the system program.

Everything the program calls but does not contain is modelled here; all other code
(the program, its dependencies, the Rust standard library) is executed from its IR.
"""
import hashlib
import z3
from symex import (Ptr, PIte, UNDEF, Obj, NeedFork, Unsupported, BV, isz, norm, extract, mask, sgn)

HEAP_START = 0x300000000
HEAP_LEN = 32 * 1024
SYSTEM_ID = bytes(32)
B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def b58(s):
    n = 0
    for c in s:
        n = n * 58 + B58.index(c)
    return n.to_bytes(32, 'big')


INSTRUCTIONS_ID = b58('Sysvar1nstructions1111111111111111111111111')
ED25519_ID = b58('Ed25519SigVerify111111111111111111111111111')
PROGRAM_ID = b58('S1ashing11111111111111111111111111111111111')


def le(b):
    return int.from_bytes(b, 'little')


class HashTerm:
    def __init__(self, kind, prefix, body, out, extra=None):
        self.kind, self.prefix, self.body, self.out, self.extra = kind, prefix, body, out, extra


class Env:
    def __init__(self, ex):
        self.ex = ex
        ex.lookup_extern = self.lookup
        ex.env = self
        self.hterms = []          # HashTerm: SHA-256 applications
        self.pdas = []            # PDA derivations
        self.clock = None         # dict of clock fields (values)
        self.slots_per_epoch = None
        self.heap = None
        self.cpi = []             # log of cross program invocations (kind, ...) for the evidence
        self.inj = False
        self.linked, self.injected = set(), set()
        self.table = {
            'v_alloc': self.alloc, 'bcmp': self.bcmp, 'memcmp': self.memcmp,
            'sol_sha256': self.sha256, 'sol_log_': self.nop, 'sol_log_data': self.nop,
            'sol_log_64_': self.nop, 'sol_log_pubkey': self.nop, 'sol_log_compute_units_': self.nop,
            'sol_get_clock_sysvar': self.get_clock, 'sol_get_epoch_schedule_sysvar': self.get_schedule,
            'sol_get_rent_sysvar': self.get_rent, 'sol_invoke_signed_rust': self.invoke,
            'sol_try_find_program_address': self.find_pda,
            'sol_create_program_address': self.create_pda,
            'sol_memcpy_': self.memcpy, 'sol_memmove_': self.memcpy, 'sol_memset_': self.memset,
            'sol_memcmp_': self.sol_memcmp, 'sol_get_stack_height': lambda ex, st, a: ex.stack_height,
        }
        ex.stack_height = 1

    def lookup(self, name):
        h = self.table.get(name)
        if h is not None:
            return h
        if '5alloc3fmt6format12format_inner' in name:
            return self.format_inner
        if '4core3fmt5write' in name or '4core3fmt9Formatter' in name:
            return lambda ex, st, a: 0
        return None

    # ---------------------------------------------------------------- memory
    def setup(self, st):
        """per-state objects of the model"""
        p = self.ex.new_obj(st, 8, kind='heap position')
        self.heap = p
        self.ex.store(st, p, HEAP_START + HEAP_LEN, 8)

    def alloc(self, ex, st, a):
        size, align = a
        if type(align) is not int:
            raise Unsupported('allocation with symbolic alignment')
        pos = ex.load(st, self.heap, 8)
        if isz(size):
            size = norm(z3.simplify(size))
        if type(pos) is int and type(size) is int:
            new = max(pos - size, 0) & ~(align - 1) & mask(64)
            if new < HEAP_START + 8:
                return 0
            low = new & 15
        else:
            P, S = BV(pos, 64), BV(size, 64)
            # a request that is too large returns null, like the real allocator
            fits = z3.And(z3.ULE(S, P), z3.UGE((P - S) & BV(~(align - 1) & mask(64), 64),
                                               BV(HEAP_START + 8, 64)))
            if not ex.must(st, fits):
                if ex.must(st, z3.Not(fits)):
                    return 0
                raise NeedFork(fits)
            new = norm(z3.simplify((P - S) & BV(~(align - 1) & mask(64), 64)))
            low = None
        ex.store(st, self.heap, new, 8)
        key = ('heap', st.key(), low, size if type(size) is int else None)
        known = key in ex.allockeys
        p = ex.new_obj(st, size, kind='heap', key=key)
        if low is not None:
            ex.base[p.obj] = (ex.base[p.obj] & ~15) | low
        elif align < 8:
            # the low address bits depend on the sizes allocated so far
            r = z3.BitVec('addr!%d' % p.obj, 3)
            ex.base[p.obj] = z3.ZeroExt(61, r) + BV(p.obj << 36, 64) if not known else ex.base[p.obj]
            st.assume(r == z3.Extract(2, 0, BV(new, 64)))
        return p

    def format_inner(self, ex, st, a):
        """formatted text only reaches the log: an empty string"""
        d = ex.deref(st, a[0])
        ex.store(st, d, 0, 8)
        ex.store(st, ex.gep(d, 8), 1, 8)
        ex.store(st, ex.gep(d, 16), 0, 8)
        return None

    def nop(self, ex, st, a):
        return None

    def memcpy(self, ex, st, a):
        n = norm(z3.simplify(a[2])) if isz(a[2]) else a[2]
        if n != 0:
            ex.memcpy(st, ex.deref(st, a[0]), ex.deref(st, a[1]), n)
        return None

    def memset(self, ex, st, a):
        v = a[1]
        v = v & 255 if type(v) is int else extract(7, 0, v)
        if a[2] != 0 or isz(a[2]):
            ex.memset(st, ex.deref(st, a[0]), v, a[2])
        return None

    def sol_memcmp(self, ex, st, a):
        r = self.memcmp(ex, st, a[:3])
        ex.store(st, ex.deref(st, a[3]), r, 4)
        return None

    def bcmp(self, ex, st, a):
        p, q, n = a
        n = norm(z3.simplify(n)) if isz(n) else n
        if type(n) is int and n == 0:
            return 0
        if isz(n) and not (type(p) is Ptr and type(q) is Ptr):
            if ex.must(st, n == 0):
                return 0
            raise NeedFork(n == 0) if not ex.must(st, n != 0) else NeedFork(self._fork_ptr(p, q))
        e = ex.range_eq(st, ex.deref(st, p), ex.deref(st, q), n)
        if type(e) is bool:
            return 0 if e else 1
        return z3.If(e, z3.BitVecVal(0, 32), z3.BitVecVal(1, 32))

    def _fork_ptr(self, p, q):
        if type(p) is PIte:
            return p.c
        if type(q) is PIte:
            return q.c
        raise Unsupported('bcmp of %r %r' % (p, q))

    def memcmp(self, ex, st, a):
        p, q, n = a
        n = norm(z3.simplify(n)) if isz(n) else n
        if type(n) is int and n == 0:
            return 0
        if type(n) is not int:
            # only equality with zero is ever used; the sign is left open
            e = self.bcmp(ex, st, a)
            if type(e) is int:
                if e == 0:
                    return 0
                s = ex.sym('memcmp', 32)
                st.assume(s != 0)
                return s
            s = ex.sym('memcmp', 32)
            ex.axioms.append((s == 0) == (e == 0))
            return s
        p, q = ex.deref(st, p), ex.deref(st, q)
        es, fs = ex.entries(st, p, n), ex.entries(st, q, n)
        x = ex.combine(list(reversed(es)))
        y = ex.combine(list(reversed(fs)))
        if type(x) is int and type(y) is int:
            return (x > y) - (x < y) & mask(32)
        X, Y = BV(x, 8 * n), BV(y, 8 * n)
        return z3.If(X == Y, z3.BitVecVal(0, 32), z3.If(z3.ULT(X, Y), z3.BitVecVal(mask(32), 32),
                                                        z3.BitVecVal(1, 32)))

    # ---------------------------------------------------------------- hashing
    def slices(self, ex, st, p, n):
        if type(n) is not int:
            raise Unsupported('symbolic number of slices')
        out = []
        p = ex.deref(st, p) if n else p
        for i in range(n):
            q = ex.load(st, ex.gep(p, 16 * i), 8)
            l = ex.load(st, ex.gep(p, 16 * i + 8), 8)
            l = norm(z3.simplify(l)) if isz(l) else l
            if type(q) is int:
                q = ex.to_ptr(q)
            out.append((q, l))
        return out

    def sha256(self, ex, st, a):
        parts = []
        sl = self.slices(ex, st, a[0], a[1])
        for q, l in sl:
            if type(q) is PIte:
                raise NeedFork(q.c)
        res = ex.deref(st, a[2])
        h = self.hash_parts(st, [(ex.deref(st, q), l) for q, l in sl if not (type(l) is int and l == 0)])
        ex.store(st, res, h, 32)
        return 0

    def hash_parts(self, st, sl):
        ex = self.ex
        entries = []
        rng = None
        for q, l in sl:
            if rng is not None:
                raise Unsupported('hash of data after a range')
            rk = None
            if type(l) is not int or l > 256:
                rk = ex.range_key(st, q, l)
                if rk is None:
                    if type(l) is not int:
                        raise Unsupported('hash of a range of symbolic length that is not an input')
                    entries += ex.entries(st, q, l)
                else:
                    rng = (rk[0], z3.simplify(rk[1], som=True), z3.simplify(BV(l, 64)))
            else:
                entries += ex.entries(st, q, l)
        if rng is None:
            return self.hash_bytes(entries)
        if not all(type(e) is int for e in entries):
            raise Unsupported('hash of symbolic prefix and range')
        return self.hash_range(bytes(entries), *rng)

    def hash_bytes(self, entries):
        """SHA-256 of a fixed number of byte entries"""
        if all(type(e) is int for e in entries):
            return le(hashlib.sha256(bytes(entries)).digest())
        k = 0
        while type(entries[k]) is int:
            k += 1
        prefix = bytes(entries[:k])
        body = self.ex.combine(entries[k:])
        body = BV(body, 8 * (len(entries) - k))
        return self.hash_body(prefix, body)

    def hash_body(self, prefix, body):
        body = z3.simplify(body)
        if z3.is_bv_value(body):
            n = body.size() // 8
            return le(hashlib.sha256(prefix + body.as_long().to_bytes(n, 'little')).digest())
        for t in self.hterms:
            if t.kind == 'bytes' and t.prefix == prefix and t.body.size() == body.size() and t.body.eq(body):
                return t.out
        t = HashTerm('bytes', prefix, body, z3.BitVec('sha!%d' % len(self.hterms), 256))
        self._add_term(t)
        return t.out

    def hash_range(self, prefix, arr, off, n):
        arr, off = self.ex.canonical(arr, off, n)
        for t in self.hterms:
            if t.kind == 'range' and t.prefix == prefix and t.body[0] is arr and t.body[1].eq(off) and t.body[2].eq(n):
                return t.out
        t = HashTerm('range', prefix, (arr, off, n), z3.BitVec('sha!%d' % len(self.hterms), 256))
        self._add_term(t)
        return t.out

    def _add_term(self, t):
        self.hterms.append(t)

    def refine(self, m, ev):
        """facts about hashes violated by the model: equal messages hash equally; and, where
        `inj` is set, different messages have different (truncated) hashes"""
        new = []
        groups = {}
        outs = {}
        bad = False
        for t in self.hterms:
            out = ev(t.out)
            if t.kind == 'bytes':
                k = t.prefix + ev(t.body).to_bytes(t.body.size() // 8, 'little')
                q = groups.setdefault(k, (t, out))
                if q[1] != out:
                    bad = True
                    self.same_message(q[0], t, new)
            if self.inj:
                outs.setdefault(out & mask(160), []).append(t)
        if bad:
            self.simulate(m, ev, new)
        rs = [t for t in self.hterms if t.kind == 'range']
        for i, t in enumerate(rs):
            for s in rs[:i]:
                if s.prefix == t.prefix and ev(s.body[2]) == ev(t.body[2]) and ev(s.out) != ev(t.out) and \
                        (s, t) not in self.linked:
                    self.linked.add((s, t))
                    new.append(z3.Implies(self.msg_eq(s, t), s.out == t.out))
        if self.inj:
            for g in outs.values():
                for i, t in enumerate(g):
                    for s in g[:i]:
                        if (s, t) in self.injected:
                            continue
                        self.injected.add((s, t))
                        e = self.msg_eq(s, t)
                        same = extract(159, 0, s.out) == extract(159, 0, t.out)
                        new.append(z3.Not(same) if e is False else z3.Implies(same, e))
        return new

    def same_message(self, s, t, new):
        if (s, t) not in self.linked:
            self.linked.add((s, t))
            e = self.msg_eq(s, t)
            if e is not False:
                new.append(z3.Implies(e, s.out == t.out))

    def injective(self, x, y):
        """the hashes with outputs x and y agree in 20 bytes only for the same message"""
        s, t = [[h for h in self.hterms if h.out.eq(v)][0] for v in (x, y)]
        if s is t or (s, t) in self.injected:
            return
        self.injected.add((s, t))
        self.injected.add((t, s))
        e = self.msg_eq(s, t)
        same = extract(159, 0, s.out) == extract(159, 0, t.out)
        self.ex.axioms.append(z3.Not(same) if e is False else z3.Implies(same, e))

    def simulate(self, m, ev, new):
        """evaluate every hash with the real function from the bytes of the model: terms whose
        messages then agree are the ones that agree whenever their inputs do, at any depth"""
        sub = []
        groups = {}
        rs = []
        for t in self.hterms:
            if t.kind == 'bytes':
                b = t.body
                if sub:
                    b = z3.substitute(b, *sub)
                k = t.prefix + ev(b).to_bytes(b.size() // 8, 'little')
                real = le(hashlib.sha256(k).digest())
                q = groups.setdefault(k, t)
                if q is not t:
                    self.same_message(q, t, new)
            else:
                real = None
                for u, h in rs:
                    if u.prefix == t.prefix and ((u, t) in self.linked or u.body[0] is t.body[0]) and \
                            z3.is_true(m.eval(self.msg_eq(u, t), model_completion=True)):
                        real = h
                        break
                if real is None:
                    k = (t.prefix, t.body[0].id, ev(t.body[1]), ev(t.body[2]))
                    real = le(hashlib.sha256(repr(k).encode()).digest())
                rs.append((t, real))
            sub.append((t.out, z3.BitVecVal(real, 256)))

    def msg_eq(self, s, t):
        """condition for two hashed messages to be the same, False if impossible"""
        if s.kind == 'bytes' and t.kind == 'bytes':
            if len(s.prefix) == len(t.prefix):
                if s.prefix != t.prefix or s.body.size() != t.body.size():
                    return False
                return s.body == t.body
            # different split between constant and symbolic bytes
            if len(s.prefix) > len(t.prefix):
                s, t = t, s
            d = len(t.prefix) - len(s.prefix)
            if 8 * d + t.body.size() != s.body.size():
                return False
            full = z3.Concat(t.body, z3.BitVecVal(le(t.prefix[len(s.prefix):]), 8 * d))
            if s.prefix != t.prefix[:len(s.prefix)]:
                return False
            return s.body == full
        if s.kind == 'range' and t.kind == 'range':
            if s.prefix != t.prefix:
                return False
            e = self.ex.arr_range_eq(s.body[0], s.body[1], t.body[0], t.body[1], s.body[2])
            return z3.And(s.body[2] == t.body[2], e)
        if s.prefix[:1] != t.prefix[:1]:
            return False
        raise Unsupported('comparison of a hashed range with hashed bytes')

    # ---------------------------------------------------------------- sysvars
    def get_clock(self, ex, st, a):
        p = ex.deref(st, a[0])
        for i, f in enumerate(('slot', 'epoch_start_timestamp', 'epoch', 'leader_schedule_epoch', 'unix_timestamp')):
            ex.store(st, ex.gep(p, 8 * i), self.clock[f], 8)
        return 0

    def get_schedule(self, ex, st, a):
        p = ex.deref(st, a[0])
        s = self.schedule
        ex.store(st, p, s['slots_per_epoch'], 8)
        ex.store(st, ex.gep(p, 8), s['leader_schedule_slot_offset'], 8)
        ex.store(st, ex.gep(p, 16), s['warmup'], 1)
        ex.store(st, ex.gep(p, 24), s['first_normal_epoch'], 8)
        ex.store(st, ex.gep(p, 32), s['first_normal_slot'], 8)
        return 0

    def get_rent(self, ex, st, a):
        p = ex.deref(st, a[0])
        import struct
        ex.store(st, p, 3480, 8)
        ex.store(st, ex.gep(p, 8), int.from_bytes(struct.pack('<d', 2.0), 'little'), 8)
        ex.store(st, ex.gep(p, 16), 50, 1)
        return 0

    # ---------------------------------------------------------------- program derived addresses
    def seed_bytes(self, ex, st, sl):
        es = []
        lens = []
        for q, l in sl:
            if type(l) is not int:
                raise Unsupported('seed of symbolic length')
            if l:
                es += ex.entries(st, ex.deref(st, q), l)
            lens.append(l)
        return es, lens

    def pda(self, seeds, program):
        """seeds: BV or int of nbits; program: 256-bit value.  -> (address, bump)"""
        nbits, val = seeds
        val = z3.simplify(BV(val, nbits))
        prog = z3.simplify(BV(program, 256))
        for t in self.pdas:
            if t['n'] == nbits and t['seeds'].eq(val) and t['prog'].eq(prog):
                return t['addr'], t['bump']
        k = len(self.pdas)
        t = dict(n=nbits, seeds=val, prog=prog, addr=z3.BitVec('pda!%d' % k, 256), bump=z3.BitVec('bump!%d' % k, 8))
        ax = self.ex.axioms
        # a derived address is off the curve and never one of the well-known ids
        for kid in (SYSTEM_ID, INSTRUCTIONS_ID, ED25519_ID, PROGRAM_ID):
            ax.append(t['addr'] != z3.BitVecVal(le(kid), 256))
        for s in self.pdas:
            if s['n'] == nbits:
                e = z3.And(s['seeds'] == val, s['prog'] == prog)
                ax.append(e == (s['addr'] == t['addr']))
                ax.append(z3.Implies(e, s['bump'] == t['bump']))
            else:
                ax.append(s['addr'] != t['addr'])
        self.pdas.append(t)
        return t['addr'], t['bump']

    def find_pda(self, ex, st, a):
        sl = self.slices(ex, st, a[0], a[1])
        es, lens = self.seed_bytes(ex, st, sl)
        prog = ex.load(st, ex.deref(st, a[2]), 32)
        if any(l > 32 for l in lens) or len(lens) > 15:
            return 1
        addr, bump = self.pda((8 * len(es), ex.combine(es)), prog)
        ex.store(st, ex.deref(st, a[3]), addr, 32)
        ex.store(st, ex.deref(st, a[4]), bump, 1)
        return 0

    def signer_match(self, ex, st, sl, prog, key):
        """condition under which these signer seeds derive `key` for program `prog`"""
        es, lens = self.seed_bytes(ex, st, sl)
        if not lens or any(l > 32 for l in lens) or len(lens) > 16 or lens[-1] != 1:
            return z3.BoolVal(False)
        seeds, bump = es[:-1], ex.combine(es[-1:])
        conds = []
        n = 8 * len(seeds)
        v = ex.combine(seeds)
        for t in self.pdas:
            if t['n'] == n:
                conds.append(z3.And(t['seeds'] == BV(v, n), t['prog'] == BV(prog, 256), t['bump'] == BV(bump, 8),
                                    t['addr'] == BV(key, 256)))
        return z3.Or(*conds) if conds else z3.BoolVal(False)

    def create_pda(self, ex, st, a):
        sl = self.slices(ex, st, a[0], a[1])
        es, lens = self.seed_bytes(ex, st, sl)
        prog = ex.load(st, ex.deref(st, a[2]), 32)
        if not lens or lens[-1] != 1:
            raise Unsupported('create_program_address without a bump')
        bump = BV(ex.combine(es[-1:]), 8)
        n = 8 * (len(es) - 1)
        addr, b = self.pda((n, ex.combine(es[:-1])), prog)
        # a smaller bump may derive another valid address, a larger one never does
        other = z3.BitVec('pda_other!%d' % len(ex.axioms), 256)
        ok = z3.Bool('pda_ok!%d' % len(ex.axioms))
        ex.axioms.append(z3.Implies(bump == b, ok))
        ex.axioms.append(z3.Implies(z3.UGT(bump, b), z3.Not(ok)))
        for t in self.pdas:
            ex.axioms.append(other != t['addr'])
        ex.store(st, ex.deref(st, a[3]), z3.If(bump == b, addr, other), 32)
        return z3.If(ok, z3.BitVecVal(0, 64), z3.BitVecVal(1, 64))

    # ---------------------------------------------------------------- cross program invocation
    def abort(self, st, why):
        self.ex.finish('abort', st, None, why)
        return 'dead'

    def invoke(self, ex, st, a):
        """system program instructions issued by the program (solana_stable_layout)"""
        ix = ex.deref(st, a[0])
        infos, ninfos = a[1], a[2]
        nmeta = ex.load(st, ex.gep(ix, 16), 8)
        metas = ex.load(st, ix, 8)
        dlen = ex.load(st, ex.gep(ix, 40), 8)
        data = ex.load(st, ex.gep(ix, 24), 8)
        prog = ex.load(st, ex.gep(ix, 48), 32)
        if type(nmeta) is not int or type(dlen) is not int or type(ninfos) is not int:
            raise Unsupported('cross program invocation of symbolic shape')
        if prog != le(SYSTEM_ID):
            raise Unsupported('cross program invocation of something other than the system program')
        data = ex.deref(st, data)
        tag = ex.load(st, data, 4)
        if type(tag) is not int:
            raise Unsupported('symbolic system instruction')
        infos = ex.deref(st, infos)
        metas = ex.deref(st, metas)
        # resolve the first account meta among the account infos
        key = ex.load(st, metas, 32)
        msign = ex.load(st, ex.gep(metas, 32), 1)
        mwrite = ex.load(st, ex.gep(metas, 33), 1)
        acct = None
        for i in range(ninfos):
            info = ex.gep(infos, 48 * i)
            kp = ex.deref(st, ex.load(st, info, 8))
            k = ex.load(st, kp, 32)
            same = z3.simplify(BV(k, 256) == BV(key, 256))
            if z3.is_false(same):
                continue
            if ex.must(st, same):
                acct = info
                break
            if not ex.must(st, z3.Not(same)):
                raise NeedFork(same)
        if acct is None:
            return self.abort(st, 'CPI: account missing')
        region = ex.gep(ex.deref(st, ex.load(st, acct, 8)), mask(64) + 1 - 8)
        writable = ex.load(st, ex.gep(region, 2), 1)
        signer = ex.load(st, ex.gep(region, 1), 1)
        owner = ex.load(st, ex.gep(region, 40), 32)
        nsig = a[4]
        if type(nsig) is not int:
            raise Unsupported('symbolic signer seeds')
        sigs = [BV(signer, 8) != 0]
        if nsig:
            for q, l in self.slices(ex, st, a[3], nsig):
                if type(l) is not int:
                    raise Unsupported('signer seeds')
                sigs.append(self.signer_match(ex, st, self.slices(ex, st, q, l), le(PROGRAM_ID), key))
        signed = z3.Or(*sigs)
        # privilege escalation fails the whole transaction
        priv = z3.simplify(z3.And(z3.Implies(BV(msign, 8) != 0, signed), z3.Implies(BV(mwrite, 8) != 0, BV(writable, 8) != 0)))
        if not ex.must(st, priv):
            if ex.must(st, z3.Not(priv)):
                return self.abort(st, 'CPI: privilege escalation')
            raise NeedFork(priv)
        is_signer = z3.And(BV(msign, 8) != 0, signed)
        if tag == 1:        # Assign { owner }
            new = ex.load(st, ex.gep(data, 4), 32)
            dl, zeroed = self.zeroed(ex, st, acct, region)
            ok = z3.simplify(z3.Or(BV(owner, 256) == BV(new, 256),
                                   z3.And(is_signer, BV(mwrite, 8) != 0, BV(owner, 256) == BV(le(SYSTEM_ID), 256), zeroed)))
            if not ex.must(st, ok):
                if ex.must(st, z3.Not(ok)):
                    return self.abort(st, 'CPI: assign refused')
                raise NeedFork(ok)
            self.cpi.append('Assign')
            ex.store(st, ex.gep(region, 40), new, 32)
            return 0
        if tag == 8:        # Allocate { space }
            space = ex.load(st, ex.gep(data, 4), 8)
            rc = ex.deref(st, ex.load(st, ex.gep(acct, 16), 8))
            cur = ex.load(st, ex.gep(rc, 32), 8)
            ok = z3.simplify(z3.And(is_signer, BV(cur, 64) == 0, BV(owner, 256) == BV(le(SYSTEM_ID), 256),
                                    z3.ULE(BV(space, 64), BV(10240, 64))))
            if not ex.must(st, ok):
                if ex.must(st, z3.Not(ok)):
                    return self.abort(st, 'CPI: allocate refused')
                raise NeedFork(ok)
            self.cpi.append('Allocate')
            ex.store(st, ex.gep(rc, 32), space, 8)
            ex.store(st, ex.gep(region, 80), space, 8)
            dp = ex.deref(st, ex.load(st, ex.gep(rc, 24), 8))
            ex.memset(st, dp, 0, space)
            return 0
        raise Unsupported('system instruction %d' % tag)

    def zeroed(self, ex, st, acct, region):
        rc = ex.deref(st, ex.load(st, ex.gep(acct, 16), 8))
        n = ex.load(st, ex.gep(rc, 32), 8)
        if type(n) is int and n == 0:
            return n, z3.BoolVal(True)
        dp = ex.deref(st, ex.load(st, ex.gep(rc, 24), 8))
        rk = ex.range_key(st, dp, n)
        if rk is None:
            raise Unsupported('zero check of written data')
        e = ex.arr_range_eq(rk[0], rk[1], ex.zero_arr, z3.BitVecVal(0, 64), BV(n, 64))
        return n, (z3.BoolVal(e) if type(e) is bool else e)
