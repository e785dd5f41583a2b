"""Symbolic inputs of one instruction: accounts, instruction data, sysvars."""
import z3
import env as envmod
from env import le, INSTRUCTIONS_ID, SYSTEM_ID, PROGRAM_ID, ED25519_ID
from symex import Copy, SArr, Executor, State, Obj, Ptr, BV, isz

DATA_CAP = 10240          # MAX_PERMITTED_DATA_INCREASE


class Account:
    """the 88-byte header of an account followed by its data, as the loader lays them out"""

    def __init__(self, w, name, max_len, min_len=0, key=None, owner=None, length=None, cap=None, fields=None):
        self.w, self.name = w, name
        f = fields or {}
        self.signer = f.get('signer', w.v('%s.signer' % name, 8))
        self.writable = f.get('writable', w.v('%s.writable' % name, 8))
        self.exec = f.get('exec', w.v('%s.exec' % name, 8))
        self.key = w.v('%s.key' % name, 256) if key is None else key
        self.owner = w.v('%s.owner' % name, 256) if owner is None else owner
        self.lamports = f.get('lamports', w.v('%s.lamports' % name, 64))
        self.len = w.v('%s.len' % name, 64) if length is None else length
        self.arr = w.arr('%s.data' % name)
        self.max_len, self.min_len = max_len, min_len
        for x in (self.signer, self.writable, self.exec):
            if isz(x):
                w.pre.append(z3.ULE(x, 1))
        if isz(self.len):
            w.pre.append(z3.ULE(self.len, max_len))
            if min_len:
                w.pre.append(z3.UGE(self.len, min_len))
        self.cap = max_len + DATA_CAP if cap is None else cap
        self.dup = None
        self.built = False

    def build(self, ex, st):
        h = ex.new_obj(st, 88, ('zero',), kind='account %s' % self.name)
        d = ex.new_obj(st, self.cap, ('array', self.arr), kind='data of %s' % self.name)
        ex.adjacent(h.obj, d.obj, 88)
        self.h, self.d = h.obj, d.obj
        for off, v, n in ((0, 255, 1), (1, self.signer, 1), (2, self.writable, 1), (3, self.exec, 1),
                          (8, self.key, 32), (40, self.owner, 32), (72, self.lamports, 8), (80, self.len, 8)):
            ex.store(st, Ptr(self.h, off), v, n)

    # values after execution
    def field(self, ex, st, off, n):
        return ex.load(st, Ptr(self.h, off), n)

    def now_owner(self, ex, st):
        return BV(self.field(ex, st, 40, 32), 256)

    def now_lamports(self, ex, st):
        return BV(self.field(ex, st, 72, 8), 64)

    def now_len(self, ex, st):
        return BV(self.field(ex, st, 80, 8), 64)

    def byte_now(self, ex, st, off):
        return ex.entry_bv(ex.read_entry(st, ex.obj(st, self.d), off))


class World:
    def __init__(self, mod, verbose=False, timeout_ms=60000):
        self.ex = Executor(mod, verbose=verbose, timeout_ms=timeout_ms)
        self.env = envmod.Env(self.ex)
        self.pre = []
        self.vars = {}
        self.arrays = {}
        e = self.env
        e.clock = {k: self.v('clock.' + k, 64) for k in ('slot', 'epoch_start_timestamp', 'epoch',
                                                         'leader_schedule_epoch', 'unix_timestamp')}
        e.schedule = dict(slots_per_epoch=self.v('slots_per_epoch', 64),
                          leader_schedule_slot_offset=self.v('leader_schedule_slot_offset', 64),
                          warmup=self.v('warmup', 8), first_normal_epoch=self.v('first_normal_epoch', 64),
                          first_normal_slot=self.v('first_normal_slot', 64))
        self.pre.append(z3.ULE(e.schedule['warmup'], 1))
        self.accounts = []
        self.npre = 0
        self.calls = []
        self.hints = []          # preferred values when a model is made concrete
        self.strong_hints = []

    def v(self, name, w):
        x = z3.BitVec(name, w)
        self.vars[name] = x
        return x

    def arr(self, name):
        a = SArr(name)
        self.arrays[name] = a
        self.ex.arrays.append(a)
        return a

    def start(self):
        st = State()
        self.env.setup(st)
        return st

    def call_process(self, accounts, data, dlen, program_id=PROGRAM_ID, dup={}, st=None):
        """accounts: list of Account (an account repeated by index through `dup`)
        data: Ptr factory (array or entries) ; returns outcomes"""
        ex = self.ex
        fresh = st is None
        if fresh:
            st = self.start()
            ex.allockeys.clear()
        else:
            # a later transaction: only the accounts survive
            st = st.fork()
            st.frames, st.model = [], None
            ex.allockeys.clear()
            self.env.setup(st)
        for i, a in enumerate(accounts):
            if i not in dup and not (a.built and not fresh):
                a.build(ex, st)
                a.built = True
        self.init = st.fork()
        raw = ex.new_obj(st, 16 * max(1, len(accounts)), kind='raw accounts')
        for i, a in enumerate(accounts):
            if i in dup:
                ex.store(st, Ptr(raw.obj, 16 * i), 0, 8)
                ex.store(st, Ptr(raw.obj, 16 * i + 8), dup[i], 8)
            else:
                ex.store(st, Ptr(raw.obj, 16 * i), Ptr(a.h, 0), 8)
                ex.store(st, Ptr(raw.obj, 16 * i + 8), (1 << 64) - 1, 8)
        pid = ex.new_obj(st, 32, kind='program id')
        ex.store(st, pid, le(program_id), 32)
        dobj = ex.new_obj(st, dlen, ('array', data), kind='instruction data')
        self.data_obj = dobj
        # the program id follows the instruction data in the loader's buffer; nothing reads across
        for c in self.pre[self.npre:]:
            ex.axioms.append(c)
        self.npre = len(self.pre)
        self.calls.append(dict(accounts=accounts, data=data, dlen=dlen, dup=dup, clock=self.env.clock,
                               init=self.init, program_id=program_id,
                               at=[(a.h, a.d) for a in accounts]))
        return ex.run(st, 'v_process', [raw, len(accounts), pid, dobj, dlen])


    def buf(self, st, arr, n):
        """an input buffer; aligned like any allocation"""
        return self.ex.new_obj(st, n, ('array', arr), kind='input ' + arr.name)

    def call(self, st, name, args):
        """one of the client-side entry points of the harness"""
        for c in self.pre[self.npre:]:
            self.ex.axioms.append(c)
        self.npre = len(self.pre)
        return self.ex.run(st, name, args)


class Sysvar(Account):
    """the instructions sysvar: `n` instructions of which number `cur` is running.

    Laid out as construct_instructions_data does, for a concrete number of accounts per
    instruction; the data lengths of the signature verification and of the current
    instruction are symbolic, and so are all their contents.
    """
    SIG_AT, CUR_AT, TOTAL = 256, 2048, 4096

    def __init__(self, w, cur=2, n=3, sig_accounts=0, cur_accounts=4, max_sig=64, max_cur=400, key=None, sig_len=None, cur_len=None,
                 suffix=''):
        super().__init__(w, 'sysvar' + suffix, self.TOTAL, key=key, length=self.TOTAL, cap=self.TOTAL)
        self.cur, self.n = cur, n
        self.sig_accounts, self.cur_accounts = sig_accounts, cur_accounts
        self.sig_len = w.v('sig.len' + suffix, 16) if sig_len is None else sig_len
        self.cur_len = w.v('top.len' + suffix, 16) if cur_len is None else cur_len
        if isz(self.sig_len):
            w.pre.append(z3.ULE(self.sig_len, max_sig))
        if isz(self.cur_len):
            w.pre.append(z3.ULE(self.cur_len, max_cur))
        self.sig_prog_at = self.SIG_AT + 2 + 33 * sig_accounts
        self.sig_data_at = self.sig_prog_at + 34
        self.cur_data_at = self.CUR_AT + 2 + 33 * cur_accounts + 34
        self.fixed = {}          # offset -> known bytes
        self.top_is = None       # (array, length): the data of the current instruction

    def byte(self, off):
        return BV(self.w.ex.sel(self.arr, off), 8)

    def rng(self, off, n):
        if n == 1:
            return self.byte(off)
        return z3.Concat(*[self.byte(off + i) for i in reversed(range(n))])

    def build(self, ex, st):
        super().build(ex, st)
        if self.top_is is not None:
            arr, n = self.top_is
            o = st.mem[self.d]
            o.layers.append(Copy(self.cur_data_at, n, Obj(-2, 1 << 20, ('array', arr)), 0))
        for off, bs in self.fixed.items():
            ex.store(st, Ptr(self.d, off), le(bs), len(bs))

        def put(off, v, n=2):
            ex.store(st, Ptr(self.d, off), v, n)
        put(0, self.n)
        for i in range(self.n):
            put(2 + 2 * i, self.CUR_AT if i == self.cur else self.SIG_AT if i == self.cur - 1 else self.SIG_AT)
        if self.cur > 0:
            put(self.SIG_AT, self.sig_accounts)
            put(self.sig_prog_at + 32, self.sig_len)
        put(self.CUR_AT, self.cur_accounts)
        put(self.cur_data_at - 2, self.cur_len)
        put(self.TOTAL - 2, self.cur)
