"""Scenarios (symbolic inputs of one submission or one close) and the properties as
formulas over those inputs and the observed result.  Nothing here is derived from the
implementation: offsets, layouts and rules are those of the published formats."""
import struct
import z3
from symex import BV, isz, Ptr, mask, norm, extract
from env import le, INSTRUCTIONS_ID, SYSTEM_ID, PROGRAM_ID, ED25519_ID
from world import World, Account, Sysvar

LEAF = b'\x00SOLANA_MERKLE_SHREDS_LEAF'
NODE = b'\x01SOLANA_MERKLE_SHREDS_NODE'
FAMILIES = (0x40, 0x60, 0x70, 0x80, 0x90, 0xb0)
VALID = frozenset(f | p for f in FAMILIES for p in range(16))
REPORT = 114
RENT_PER_BYTE = 3480 * 2
RENT_OVERHEAD = 128
MAX_SHRED = 1232

# error codes
ERR = dict(CloseTooSoon=0, DestinationIsReport=1, DuplicateReport=2, ExceedsStatute=3, InvalidDestination=4,
           InvalidVariant=5, InvalidInstruction=9, InvalidReportAccount=11, MissingSysvar=15, MissingSystem=17,
           LegacyShreds=14, NotPrefunded=20,
           BufferTooSmall=19, VerificationMismatch=23, SlotMismatch=24, Version=12, TypeMismatch=22, Payload=7,
           ErasureMeta=8, LastIndex=10, MissingVerification=16, InvalidVerification=13)
INVALID_INSTRUCTION_DATA = 3 << 32
NOT_ENOUGH_KEYS = 11 << 32

IX = dict(offset=(1, 8), slot=(9, 8), node=(17, 32), reporter=(49, 32), destination=(81, 32),
          root1=(113, 32), sig1=(145, 64), root2=(209, 32), sig2=(241, 64))
IX_LEN = 305
U = z3.ULE


def bv(x, w=64):
    return z3.BitVecVal(x, w)


def cat(bs):
    """little-endian bytes -> value"""
    bs = [BV(b, 8) for b in bs]
    return bs[0] if len(bs) == 1 else z3.Concat(*reversed(bs))


def ze(x, w=64):
    return x if x.size() == w else z3.ZeroExt(w - x.size(), x)


def is_code(v):
    return v & 0xf0 in (0x40, 0x60, 0x70)


def resigned(v):
    return v & 0xf0 in (0x70, 0xb0)


def signed_end(v):
    """length of the part of a shred the leader's signature covers (with its proof)"""
    return (1228 if is_code(v) else 1203) - (64 if resigned(v) else 0)


def proof_at(v):
    return signed_end(v) - 20 * (v & 15)


class Shred:
    """fields of the shred at `at` in the proof account, for a known variant"""

    def __init__(self, sc, at, length, v):
        self.sc, self.at, self.len, self.v = sc, at, length, v
        self.code = is_code(v)
        self.sig = self.f(0, 64)
        self.slot = self.f(65, 8)
        self.index = self.f(73, 4)
        self.version = self.f(77, 2)
        self.fec = self.f(79, 4)
        if self.code:
            self.num_data, self.num_coding, self.position = self.f(83, 2), self.f(85, 2), self.f(87, 2)
        else:
            self.flags = self.f(85, 1)
        self._root = None
        self.levels = []         # per level of the tree: the two possible parents

    def b(self, k):
        return self.sc.w.ex.sel(self.sc.P, self.at + k)

    def f(self, k, n):
        return cat([self.b(k + i) for i in range(n)])

    def last(self):
        return self.flags & 0xc0 == 0xc0

    def tree_index(self):
        if self.code:
            return ze(self.num_data) + ze(self.position)
        return ze(self.index) - ze(self.fec)

    def tree_index_ok(self):
        ok = z3.ULT(self.tree_index(), bv(1 << (self.v & 15)))
        return ok if self.code else z3.And(z3.UGE(self.index, self.fec), ok)

    def root(self):
        if self._root is None:
            env = self.sc.w.env
            p, po = self.v & 15, proof_at(self.v)
            off = z3.simplify(self.at + 64, som=True)
            h = self.leaf = env.hash_range(LEAF, self.sc.P, off, bv(po - 64))
            ti = self.tree_index()
            for i in range(p):
                e = cat([self.b(po + 20 * i + j) for j in range(20)])
                n = z3.Extract(159, 0, h)
                l, r = [env.hash_body(NODE, x) for x in (z3.Concat(e, n), z3.Concat(n, e))]
                self.levels.append((l, r))
                h = z3.If(z3.Extract(i, i, ti) == 0, l, r)
            self._root = h
        return self._root


def conflict(sc):
    """the two shreds are evidence of a duplicate block: what the documentation calls a valid proof"""
    a, b = sc.a, sc.b
    cs = [z3.And(a.fec == b.fec, a.root() != b.root())]
    for x, y in ((a, b), (b, a)):
        if x.code:
            cs.append(z3.And(z3.ULT(x.fec, y.fec), z3.ULT(ze(y.fec), ze(x.fec) + ze(x.num_data))))
    if a.code == b.code:
        cs.append(z3.And(a.index == b.index, sc.payload_differs()))
        if not a.code:
            cs.append(z3.And(a.last(), z3.UGT(b.index, a.index)))
            cs.append(z3.And(b.last(), z3.UGT(a.index, b.index)))
        else:
            cs.append(z3.And(a.fec == b.fec, z3.Or(a.num_data != b.num_data, a.num_coding != b.num_coding,
                                                   a.index - ze(a.position, 32) != b.index - ze(b.position, 32))))
    return z3.And(a.slot == sc.ix('slot'), b.slot == sc.ix('slot'), a.version == b.version, z3.Or(*cs))


class Sigverify:
    """the canonical content of the signature verification instruction"""

    @staticmethod
    def canonical(k):
        out = [2, 0]
        for root, sig in ((113, 145), (209, 241)):
            for x in (sig, k, 17, k, root, 32, k):
                out += list(struct.pack('<H', x))
        return bytes(out)


class Dup:
    """a submission of a duplicate block proof, everything symbolic unless an option pins it"""

    def __init__(self, mod, v1=None, v2=None, cur=2, n=3, sig_accounts=0, cur_accounts=4, ixlen=None, naccts=4,
                 max_proof=4000, max_pda=300, max_sig=64, max_cur=400, tag=1, pin_sig=False, pin_top=False,
                 pin_keys=False, dup={}, inj=False, verbose=False, timeout_ms=60000, suffix='', world=None,
                 program_id=PROGRAM_ID, share=None, lens=None, sig_free=None, prog_free=False, sig_set=(), min_proof=0, pda=None, offset=None):
        self.v1, self.v2, self.cur = v1, v2, cur
        self.suffix = suffix
        w = self.w = world or World(mod, verbose=verbose, timeout_ms=timeout_ms)
        w.env.inj = inj
        sel = w.ex.sel
        self.data = w.arr('ix' + suffix)
        self.ixlen = w.v('ix.len' + suffix, 64) if ixlen is None else ixlen
        if isz(self.ixlen):
            w.pre.append(z3.ULE(self.ixlen, max_cur))
        if tag is not None:
            self.data.pins.append((None, 0, tag))
            w.pre.append(sel(self.data, 0) == tag)
        key = {}
        if pin_keys:
            key = dict(sysvar=le(INSTRUCTIONS_ID), sys=le(SYSTEM_ID))
        self.proof = Account(w, 'proof' + suffix, max_proof, min_proof)
        self.pda = pda or Account(w, 'pda' + suffix, max_pda, 0)
        self.sysvar = Sysvar(w, cur=cur, n=n, sig_accounts=sig_accounts, cur_accounts=cur_accounts, max_sig=max_sig,
                             max_cur=max_cur, key=key.get('sysvar'), suffix=suffix,
                             sig_len=30 if pin_sig else None, cur_len=self.ixlen if pin_top and not isz(self.ixlen) else None)
        self.sys = Account(w, 'sys' + suffix, 16, 0, key=key.get('sys'))
        if pin_sig:
            if not prog_free:
                self.sysvar.fixed[self.sysvar.sig_prog_at] = ED25519_ID
            c = Sigverify.canonical(cur)
            for at, v in sig_set:
                c = c[:at] + struct.pack('<H', v) + c[at + 2:]
            lo, n = sig_free or (0, 0)
            for i, b in ((0, c[:lo]), (lo + n, c[lo + n:])):
                if b:
                    self.sysvar.fixed[self.sysvar.sig_data_at + i] = b
        for off, bs in self.sysvar.fixed.items():
            for i, x in enumerate(bs):
                self.sysvar.arr.pins.append((None, off + i, x))
        if pin_top:
            self.sysvar.top_is = (self.data, self.ixlen)
            if not isz(self.ixlen):
                self.sysvar.arr.view.append((self.sysvar.cur_data_at, self.ixlen, self.data, 0))
        names = ('proof', 'pda', 'sysvar', 'sys')
        for i, j in dup.items():
            setattr(self, names[i], getattr(self, names[j]))
        self.accounts = [getattr(self, k) for k in names][:naccts]
        self.dup = dup
        self.program_id = program_id
        self.P = P = self.proof.arr
        if offset is not None:
            for i, x in enumerate(struct.pack('<Q', offset)):
                self.data.pins.append((None, 1 + i, x))
        off = self.ix('offset')
        if lens:
            l1, l2 = lens
            for i, x in enumerate(struct.pack('<I', l1)):
                P.pin(off + i, x)
            for i, x in enumerate(struct.pack('<I', l2)):
                P.pin(off + 4 + l1 + i, x)
            self.l1, self.l2 = bv(l1), bv(l2)
        else:
            self.l1 = ze(cat([sel(P, off + i) for i in range(4)]))
            self.l2 = ze(cat([sel(P, off + 4 + self.l1 + i) for i in range(4)]))
        self.at1 = z3.simplify(off + 4, som=True)
        self.at2 = z3.simplify(off + 8 + self.l1, som=True)
        for at, v in ((self.at1, v1), (self.at2, v2)):
            if v is not None:
                # arbitrary different proof entries
                for i in range(20 * (v & 15)):
                    w.strong_hints.append(sel(P, at + proof_at(v) + i) == (i * 37 + i // 20 * 11 + v) & 255)
        if v1 is not None:
            P.pin(self.at1 + 64, v1)
            self.a = Shred(self, self.at1, self.l1, v1)
        if v2 is not None:
            P.pin(self.at2 + 64, v2)
            self.b = Shred(self, self.at2, self.l2, v2)
        w.hints.append(off == bv(0))
        self.outs = None

    # ---- inputs
    def ix(self, name):
        o, n = IX[name]
        return cat([self.w.ex.sel(self.data, o + i) for i in range(n)])

    def shred_bytes(self, i):
        return (self.at1, self.l1) if i == 1 else (self.at2, self.l2)

    def payload_differs(self):
        """the parts of the two shreds the leader signed differ"""
        if self.v1 != self.v2:
            return z3.BoolVal(True)
        n = bv(signed_end(self.v1))
        e = self.w.ex.arr_range_eq(self.P, self.at1, self.P, self.at2, n)
        return z3.Not(e) if isz(e) else z3.BoolVal(not e)

    # ---- running
    def run(self, st=None):
        self.outs = self.w.call_process(self.accounts, self.data, self.ixlen, program_id=self.program_id,
                                        dup=self.dup, st=st)
        return self.outs

    def ret(self, o, k):
        return BV(o.value, 64) == bv(k)

    def err(self, o, name):
        return self.ret(o, ERR[name] or 1 << 32)

    def accepted(self):
        """[(outcome, condition)]"""
        return [(o, self.ret(o, 0)) for o in self.outs if o.kind == 'ret']

    # ---- parts of the specification of a well-formed submission
    def pda_key(self, node=None, slot=None, suffix=1):
        node = self.ix('node') if node is None else node
        slot = self.ix('slot') if slot is None else slot
        seeds = z3.Concat(bv(suffix, 8), slot, node)
        return self.w.env.pda((8 * 41, seeds), le(PROGRAM_ID))[0]

    def layout_ok(self):
        """the proof account holds two length-prefixed shreds at the offset"""
        off, L = self.ix('offset'), BV(self.proof.len, 64)
        return z3.And(U(off, L), U(bv(4), L - off), U(self.l1, L - off - 4), U(bv(4), L - off - 4 - self.l1),
                      U(self.l2, L - off - 8 - self.l1))

    def shreds_full(self):
        """each shred is complete and no longer than a packet"""
        return z3.And(*[z3.And(z3.UGE(l, bv(1228 if is_code(v) else 1203)), U(l, bv(MAX_SHRED)))
                        for l, v in ((self.l1, self.v1), (self.l2, self.v2))])

    def keys_ok(self):
        cs = []
        if isz(self.sysvar.key):
            cs.append(self.sysvar.key == le(INSTRUCTIONS_ID))
        if isz(self.sys.key):
            cs.append(self.sys.key == le(SYSTEM_ID))
        return z3.And(*cs) if cs else z3.BoolVal(True)

    def is_submission(self):
        return z3.And(BV(self.ixlen, 64) == IX_LEN, self.w.ex.sel(self.data, 0) == 1)

    def fresh_report(self):
        """nothing but lamports at the report address"""
        return z3.And(BV(self.pda.len, 64) == 0, self.pda.owner == le(SYSTEM_ID), self.pda.writable == 1)

    def rent(self, n=None):
        n = self.report_len() if n is None else n
        return (n + RENT_OVERHEAD) * RENT_PER_BYTE

    def report_len(self):
        return bv(REPORT + 8) + self.l1 + self.l2

    def prefunded(self):
        return z3.UGE(self.pda.lamports, self.rent())

    def statute(self, clock=None):
        c = (clock or self.clock)['slot']
        s = self.ix('slot')
        return z3.And(z3.UGE(c, s), U(c - s, self.w.env.schedule['slots_per_epoch']))

    @property
    def clock(self):
        return self.w.env.clock

    def sig_canonical(self):
        """the transaction verified both signatures the way the documentation lays it out"""
        s = self.sysvar
        if s.top_is is not None and s.sig_data_at in s.fixed:
            return z3.BoolVal(True)
        cs = []
        cs.append(z3.UGE(BV(s.sig_len, 16), 30))
        cs.append(s.rng(s.sig_prog_at, 32) == le(ED25519_ID))
        cs.append(s.rng(s.sig_data_at, 30) == le(Sigverify.canonical(self.cur)))
        if s.top_is is None:
            cs.append(self.top_same())
        return z3.And(*cs)

    def top_same(self):
        """the top-level instruction carries the data this instruction was invoked with"""
        s = self.sysvar
        if s.top_is is not None:
            return z3.BoolVal(True)
        n = BV(self.ixlen, 64)
        e = self.w.ex.arr_range_eq(s.arr, bv(s.cur_data_at), self.data, bv(0), n)
        return z3.And(BV(ze(BV(s.cur_len, 16)), 64) == n, e if isz(e) else z3.BoolVal(e))

    def authentic(self):
        """each shred carries the signature and yields the root named in the instruction"""
        return z3.And(self.a.sig == self.ix('sig1'), self.b.sig == self.ix('sig2'),
                      self.a.tree_index_ok(), self.b.tree_index_ok(),
                      self.a.root() == self.ix('root1'), self.b.root() == self.ix('root2'))

    def sane_fields(self):
        """no field arithmetic overflows 32 bits (a shred for which it does cannot exist)"""
        cs = []
        for s in (self.a, self.b):
            if s.code:
                cs.append(z3.UGE(s.index, ze(s.position, 32)))
                cs.append(z3.ULT(s.fec, z3.BitVecVal(0xffff0000, 32)))
        return z3.And(*cs) if cs else z3.BoolVal(True)

    PARTS = ('submission', 'keys', 'address', 'fresh', 'prefunded', 'destination', 'statute', 'sig', 'layout',
             'full', 'authentic', 'sane', 'conflict')

    def part(self, name):
        return {'submission': self.is_submission, 'keys': self.keys_ok,
                'address': lambda: self.pda.key == self.pda_key(), 'fresh': self.fresh_report,
                'prefunded': self.prefunded, 'destination': lambda: self.ix('destination') != self.pda_key(),
                'statute': self.statute, 'sig': self.sig_canonical, 'layout': self.layout_ok,
                'full': self.shreds_full, 'authentic': self.authentic, 'sane': self.sane_fields,
                'conflict': lambda: conflict(self)}[name]()

    def valid(self, but=()):
        """a submission with nothing wrong with it, except for the parts named"""
        return z3.And(*[self.part(p) for p in self.PARTS if p not in but])

    # ---- the report after an accepted submission
    def post(self, o, off):
        return BV(self.pda.byte_now(self.w.ex, o.st, off), 8)

    def post_rng(self, o, off, n):
        return cat([self.post(o, off + i) for i in range(n)])


class Close:
    """closing of a report account"""

    def __init__(self, mod, naccts=2, dup={}, max_report=3000, min_report=0, max_ix=400, tag=0, verbose=False, world=None,
                 suffix='', report=None):
        w = self.w = world or World(mod, verbose=verbose)
        self.data = w.arr('ix' + suffix)
        self.ixlen = w.v('ix.len' + suffix, 64)
        w.pre.append(z3.ULE(self.ixlen, max_ix))
        if tag is not None:
            w.pre.append(w.ex.sel(self.data, 0) == tag)
        self.report = report or Account(w, 'report' + suffix, max_report, min_report)
        self.dest = Account(w, 'dest' + suffix, 300, 0)
        self.accounts = [self.report, self.dest][:naccts]
        if 1 in dup:
            self.accounts[1] = self.report
        self.dup = dup

    def field(self, off, n):
        return cat([self.w.ex.sel(self.report.arr, off + i) for i in range(n)])

    def epoch(self):
        return self.field(65, 8)

    def destination(self):
        return self.field(33, 32)

    def run(self, st=None):
        self.outs = self.w.call_process(self.accounts, self.data, self.ixlen, dup=self.dup, st=st)
        return self.outs

    def ret(self, o, k):
        return BV(o.value, 64) == bv(k)

    def err(self, o, name):
        return self.ret(o, ERR[name] or 1 << 32)

    def accepted(self):
        return [(o, self.ret(o, 0)) for o in self.outs if o.kind == 'ret']

    def ours(self):
        """the account belongs to the program and has room for a report"""
        return z3.And(self.report.owner == le(PROGRAM_ID), z3.UGE(BV(self.report.len, 64), REPORT))

    def old_enough(self):
        e = self.epoch()
        sat = z3.If(z3.UGE(e, bv(mask(64) - 2)), bv(mask(64)), e + 3)
        return U(sat, self.w.env.clock['epoch'])
