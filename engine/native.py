"""Runs the real code natively on concrete inputs, in a child process, with the same
environment the executor models (heap, sysvars, SHA-256, program addresses, system program)."""
import ctypes
import hashlib
import os
import pickle
import struct

PDA_MARKER = b'ProgramDerivedAddress'
P25519 = 2 ** 255 - 19
D25519 = -121665 * pow(121666, P25519 - 2, P25519) % P25519


def on_curve(b):
    y = int.from_bytes(b, 'little') & (2 ** 255 - 1)
    y %= P25519
    u = (y * y - 1) % P25519
    v = (D25519 * y * y + 1) % P25519
    x2 = u * pow(v, P25519 - 2, P25519) % P25519
    return x2 == 0 or pow(x2, (P25519 - 1) // 2, P25519) == 1


def create_address(seeds, prog):
    h = hashlib.sha256(seeds + prog + PDA_MARKER).digest()
    return None if on_curve(h) else h


def find_address(seeds, prog):
    for b in range(255, -1, -1):
        a = create_address(seeds + bytes([b]), prog)
        if a is not None:
            return a, b
    raise ValueError


FN = ctypes.CFUNCTYPE(ctypes.c_uint64, *[ctypes.c_uint64] * 5)
ROOM = 10240


class Abort(Exception):
    pass


def rd(a, n):
    return ctypes.string_at(a, n)


def u64(a):
    return struct.unpack('<Q', rd(a, 8))[0]


def wr(a, b):
    ctypes.memmove(a, b, len(b))


class Runtime:
    def __init__(self, so, clock, schedule, program_id, finish):
        self.lib = lib = ctypes.CDLL(so)
        self.program_id = program_id
        self.clock, self.schedule = clock, schedule
        self.finish = finish
        self.keep = []
        self.cpis = []
        lib.shim_reset()
        for i, f in enumerate((self.sha256, self.get_clock, self.get_schedule, self.get_rent, self.invoke,
                               self.find, self.create)):
            c = FN(f)
            self.keep.append(c)
            lib.shim_set(i, c)

    def slices(self, a, n):
        return [rd(u64(a + 16 * i), u64(a + 16 * i + 8)) if u64(a + 16 * i + 8) else b'' for i in range(n)]

    def sha256(self, a, n, out, d, e):
        wr(out, hashlib.sha256(b''.join(self.slices(a, n))).digest())
        return 0

    def get_clock(self, p, *_):
        c = self.clock
        wr(p, struct.pack('<5Q', *[c[k] for k in ('slot', 'epoch_start_timestamp', 'epoch', 'leader_schedule_epoch',
                                                   'unix_timestamp')]))
        return 0

    def get_schedule(self, p, *_):
        s = self.schedule
        wr(p, struct.pack('<2QB7xQQ', s['slots_per_epoch'], s['leader_schedule_slot_offset'], s['warmup'],
                          s['first_normal_epoch'], s['first_normal_slot']))
        return 0

    def get_rent(self, p, *_):
        wr(p, struct.pack('<QdB', 3480, 2.0, 50))
        return 0

    def find(self, seeds, n, prog, out, bump):
        a, b = find_address(b''.join(self.slices(seeds, n)), rd(prog, 32))
        wr(out, a)
        wr(bump, bytes([b]))
        return 0

    def create(self, seeds, n, prog, out, e):
        a = create_address(b''.join(self.slices(seeds, n)), rd(prog, 32))
        if a is None:
            return 1
        wr(out, a)
        return 0

    def invoke(self, ix, infos, ninfos, seeds, nseeds):
        metas, nmeta = u64(ix), u64(ix + 16)
        data = rd(u64(ix + 24), u64(ix + 40)) if u64(ix + 40) else b''
        prog = rd(ix + 48, 32)
        if prog != bytes(32):
            self.finish('abort', 'CPI: not the system program')
        key = rd(metas, 32)
        msign, mwrite = rd(metas + 32, 2)
        acct = None
        for i in range(ninfos):
            if rd(u64(infos + 48 * i), 32) == key:
                acct = infos + 48 * i
                break
        if acct is None:
            self.finish('abort', 'CPI: account missing')
        region = u64(acct) - 8
        signer, writable = rd(region + 1, 2)
        signed = bool(signer)
        for i in range(nseeds):
            s, n = u64(seeds + 16 * i), u64(seeds + 16 * i + 8)
            if create_address(b''.join(self.slices(s, n)), self.program_id) == key:
                signed = True
        if msign and not signed or mwrite and not writable:
            self.finish('abort', 'CPI: privilege escalation')
        rc = u64(acct + 16)
        dl = u64(rc + 32)
        dp = u64(rc + 24)
        owner = rd(region + 40, 32)
        is_signer = msign and signed
        tag = struct.unpack('<I', data[:4])[0]
        if tag == 1:
            new = data[4:36]
            if owner != new:
                if not (is_signer and mwrite and owner == bytes(32) and rd(dp, dl) == bytes(dl)):
                    self.finish('abort', 'CPI: assign refused')
            wr(region + 40, new)
            return 0
        if tag == 8:
            space = struct.unpack('<Q', data[4:12])[0]
            if not (is_signer and dl == 0 and owner == bytes(32) and space <= ROOM):
                self.finish('abort', 'CPI: allocate refused')
            wr(rc + 32, struct.pack('<Q', space))
            wr(region + 80, struct.pack('<Q', space))
            wr(dp, bytes(space))
            return 0
        self.finish('abort', 'CPI: other')


def in_child(f):
    """run f(finish) in a child; finish(kind, value) ends it.  -> (kind, value)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 2)
            os.dup2(dn, 1)

            def finish(kind, value):
                b = pickle.dumps((kind, value))
                while b:
                    b = b[os.write(w, b):]
                os._exit(0)
            f(finish)
        except BaseException as e:
            b = pickle.dumps(('error', repr(e)))
            os.write(w, b)
        os._exit(0)
    os.close(w)
    buf = b''
    while True:
        c = os.read(r, 65536)
        if not c:
            break
        buf += c
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if buf:
        return pickle.loads(buf)
    return ('panic', 'signal %d' % os.WTERMSIG(status) if os.WIFSIGNALED(status) else 'exit %d' % status)


def align8(n):
    return (n + 7) & ~7


def process(so, calls, program_id):
    """calls: [{accounts, data, clock, schedule}] run one after another on the same accounts
    (accounts of later calls may be names of earlier ones).  One call is the usual case.
    -> list of (kind, ret or reason, accounts after)"""
    out = []
    state = None
    for c in calls:
        accts = c['accounts']

        def go(finish, c=c, accts=accts):
            rt = Runtime(so, c['clock'], c['schedule'], program_id, finish)
            lib = rt.lib
            total = sum(align8(88 + len(a['data']) + ROOM) for a in accts) + 64
            buf = ctypes.create_string_buffer(total + 16)
            base = (ctypes.addressof(buf) + 15) & ~15
            at = base
            raw = b''
            regions = []
            for i, a in enumerate(accts):
                if a.get('dup') is not None:
                    raw += struct.pack('<Qq', 0, a['dup'])
                    regions.append(regions[a['dup']])
                    continue
                wr(at, struct.pack('<BBBB4x32s32sQQ', 255, a['signer'], a['writable'], a['exec'], a['key'], a['owner'],
                                   a['lamports'], len(a['data'])) + a['data'])
                raw += struct.pack('<Qq', at, -1)
                regions.append(at)
                at += align8(88 + len(a['data']) + ROOM)
            rb = ctypes.create_string_buffer(raw + b'\0' * 16)
            pid = ctypes.create_string_buffer(program_id)
            # the loader puts the instruction data at an 8-aligned address
            db = ctypes.create_string_buffer(len(c['data']) + 16)
            da = (ctypes.addressof(db) + 7) & ~7
            wr(da, c['data'])
            f = lib.v_process
            f.restype = ctypes.c_uint64
            f.argtypes = [ctypes.c_void_p, ctypes.c_uint64, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_uint64]
            ret = f(rb, len(accts), pid, da, len(c['data']))
            post = []
            for r in regions:
                n = u64(r + 80)
                post.append(dict(owner=rd(r + 40, 32), lamports=u64(r + 72), data=rd(r + 88, n)))
            finish('ret', (ret, post))
        k, v = in_child(go)
        if k == 'error':
            raise RuntimeError(v)
        if k == 'ret':
            out.append((k, v[0], v[1]))
        else:
            out.append((k, v, None))
    return out


def client(so, name, args, outs):
    """call a client-side entry point: args are ints or bytes, the last argument is a buffer of
    `outs` bytes; returned as (kind, (result, buffer, reader)) with every slice in it read"""
    def go(finish):
        rt = Runtime(so, dict.fromkeys(('slot', 'epoch_start_timestamp', 'epoch', 'leader_schedule_epoch',
                                        'unix_timestamp'), 0), {}, bytes(32), finish)
        keep, av, at = [], [], []
        for a in args:
            if isinstance(a, int):
                av.append(ctypes.c_uint64(a))
            else:
                b = ctypes.create_string_buffer(a, len(a) + 16)
                keep.append(b)
                av.append(ctypes.c_void_p(ctypes.addressof(b)))
        out = ctypes.create_string_buffer(outs)
        f = getattr(rt.lib, name)
        f.restype = ctypes.c_uint64
        r = f(*av, ctypes.c_void_p(ctypes.addressof(out)))
        raw = out.raw
        slices = {}
        if name in ('v_unpack', 'v_pack', 'v_ix_close', 'v_ix_dup', 'v_ix_full') and (name != 'v_unpack' or r == 0):
            for o in SLICES[name]:
                p, n = struct.unpack('<QQ', raw[o:o + 16])
                k = 34 * n if name.startswith('v_ix') and o % 64 == 32 else n
                slices[o] = (rd(p, k) if 0 < k < 1 << 20 else b'', n)
        finish('ret', (r, raw, slices))
    return in_child(go)


SLICES = dict(v_unpack=(0, 16), v_pack=(0,), v_ix_close=(32, 48), v_ix_dup=(32, 48),
              v_ix_full=(32, 48, 96, 112, 160, 176))
