"""The properties: for each, its cases and the obligations the solver decides in each case."""
import struct
import z3
import concrete
import native
import spec
from spec import IX, Dup, Close, Sigverify, VALID, FAMILIES, bv, ze, cat, conflict, is_code, resigned, signed_end, U
from env import le, INSTRUCTIONS_ID, SYSTEM_ID, PROGRAM_ID, ED25519_ID
from symex import BV, isz, mask, Ptr, Unsupported
from world import World, Account, Sysvar

PINNED = dict(pin_sig=True, pin_top=True, pin_keys=True, ixlen=305)

# ... and not pinned at all
WIDE = dict(pin_sig=False, pin_top=False, pin_keys=False, ixlen=None)

A_HASH = 'SHA-256 is a function: equal messages hash equally; nothing else is assumed of it'
A_INJ = 'SHA-256 truncated to 20 bytes is injective on the messages compared (collision resistance)'
A_PDA = 'program derived addresses are injective in seeds and program, off the curve and never a well-known id'
A_RT = 'runtime: accounts, sysvars, syscalls and the system program behave as modelled in engine/env.py and world.py'
A_LEN = ('proof account at most 4000 bytes, instruction data at most 400, report account at most 3000, '
         'signature verification data at most 64 bytes')
A_ENV = ('in the cases named by two variants only, the environment around the shreds is the documented one; the cases '
         'named by variants and an instruction index leave it free')
A_PIN = ('the environment around the shreds is the documented one (instruction data of 305 bytes, canonical signature '
         'verification); other environments are covered by C05, C07, C10, C11, C15, C20')
A_NULL = 'logging and text formatting have no effect on the outcome'


class Prop:
    def __init__(self, cases, assumptions, variant='release'):
        self.variant = variant
        self.cases, self.assumptions = cases, [A_RT, A_NULL] + list(assumptions)


# ------------------------------------------------------------------ choice of shred variants
# every depth in some family; the pairs of different families have the depth of today's batches, 6
QUICK_DEPTHS = {0x40: (0, 3, 9, 15), 0x60: (1, 6, 10, 14), 0x70: (2, 5, 12, 15),
                0x80: (0, 4, 8, 15), 0x90: (1, 6, 11, 13), 0xb0: (2, 7, 12, 15)}
FEW_DEPTHS = {f: (ds[0], 6, ds[-1]) for f, ds in QUICK_DEPTHS.items()}


def pairs(tier, quick=QUICK_DEPTHS, cross=True, symmetric=True):
    """variant pairs: same variant, and every pair of families"""
    out = []
    for f in FAMILIES:
        for p in range(16) if tier == 'thorough' else quick[f]:
            out.append((f | p, f | p))
    if cross:
        cd = (0, 3, 6, 15) if tier == 'thorough' else (6,)
        for p in cd:
            for i, f in enumerate(FAMILIES):
                for j, g in enumerate(FAMILIES):
                    # quick: one order of each two families, and both for a code and its data family
                    if f != g and (not symmetric or tier == 'thorough' or (i < j) == ((i + j) % 2 == 0) or abs(i - j) == 3):
                        out.append((f | p, g | p))
        # different depths
        for f in FAMILIES:
            out.append((f | 6, f | 7))
            if tier == 'thorough':
                out += [(f | 5, f | 6), (f | 0, f | 15), (f | 7, f | 4)]
                out += [(f | 6, FAMILIES[(k + 1) % 6] | 5) for k, g in enumerate(FAMILIES) if g == f]
    return sorted(set(out), key=lambda x: -((x[0] & 15) + (x[1] & 15)))


def vcases(f, ps, **kw):
    return [('%02x-%02x' % (a, b), f, dict(v1=a, v2=b, **kw)) for a, b in ps]


def single(sc):
    (o, c), = [(o, c) for o, c in sc.accepted() if not z3.is_false(z3.simplify(c))] or [(None, None)]
    return o, c


def accepts(sc):
    return [(o, c) for o, c in sc.accepted() if not z3.is_false(z3.simplify(c))]


def shred_bound(ctx, sc):
    ctx.bound('shreds: every content and length in a proof account of up to 4000 bytes, any offset; the variant byte '
              'of each shred is fixed per case')


# ------------------------------------------------------------------ the verdict on the shreds
def c01(ctx, v1, v2, replay=True, **kw):
    sc = Dup(ctx.mod, v1, v2, **dict(PINNED, **kw))
    ctx.watch(sc.w)
    sc.run()
    shred_bound(ctx, sc)
    for o, c in accepts(sc):
        ctx.prove('accepted only if a genuine conflict', sc.w, o.st.conds() + [c, z3.Not(conflict(sc))], [o],
                  'the program accepts two shreds that do not conflict')
        ctx.reach('accepts', sc.w, o.st.conds() + [c], [o], replay=replay)


def c02(ctx, v1, v2, **kw):
    sc = Dup(ctx.mod, v1, v2, **dict(PINNED, **kw))
    ctx.watch(sc.w)
    sc.run()
    shred_bound(ctx, sc)
    V = sc.valid()
    for o in sc.outs:
        c = [z3.Not(sc.ret(o, 0))] if o.kind == 'ret' else []
        ctx.prove('every genuine conflict is accepted (%s)' % o.kind, sc.w, o.st.conds() + [V] + c, [o],
                  'a well-formed submission of two conflicting shreds is refused')
    ctx.reach('valid submissions exist', sc.w, [V], [], replay=False)


# ------------------------------------------------------------------ relations between two submissions
FULL = {True: 1228, False: 1203}


def two(ctx, v1, v2, w1, w2, lens, lens2, parts):
    """two submissions with the same accounts except for the proof account, whose shreds have known lengths;
    parts: (shred of the second submission, shred of the first, number of bytes they share)"""
    sc = Dup(ctx.mod, v1, v2, lens=lens, offset=0, **PINNED)
    ctx.watch(sc.w)
    w = sc.w
    sc.run()
    s2 = Dup(ctx.mod, w1, w2, world=w, suffix="'", lens=lens2, offset=0, pda=sc.pda, **PINNED)
    at = lambda l, i: 4 if i == 1 else 8 + l[0]
    for i, j, n in parts:
        s2.P.view.append((at(lens2, i), n, sc.P, at(lens, j)))
    for f in ('signer', 'writable', 'exec', 'key', 'owner', 'lamports'):
        w.pre.append(getattr(sc.proof, f) == getattr(s2.proof, f))
    for s in (sc, s2):
        w.pre.append(s.layout_ok())
    ctx.bound('shreds at offset 0 of the proof account, of length %d and %d; their contents are arbitrary, the variant '
              'bytes fixed per case' % lens)
    return sc, s2


def same_ix(sc, s2, parts):
    """instruction data equal field by field; parts: {field of s2: field of sc}"""
    for f in spec.IX:
        o, n = spec.IX[f]
        s2.data.view.append((o, n, sc.data, spec.IX[parts.get(f, f)][0]))


def agree(ctx, name, sc, s2, says):
    """neither is accepted while the other is not"""
    for a, b in ((sc, s2), (s2, sc)):
        for o, c in accepts(a):
            for q in b.outs:
                d = [z3.Not(b.ret(q, 0))] if q.kind == 'ret' else []
                outs = [o, q] if a is sc else [q, o]
                ctx.prove(name, sc.w, o.st.conds() + [c] + q.st.conds() + d, outs, says)
    for o, c in accepts(sc):
        ctx.reach('accepts', sc.w, o.st.conds() + [c], [], replay=False)


def c03(ctx, v1, v2):
    l = FULL[is_code(v1)], FULL[is_code(v2)]
    sc, s2 = two(ctx, v1, v2, v2, v1, l, l[::-1], ((1, 2, l[1]), (2, 1, l[0])))
    same_ix(sc, s2, dict(root1='root2', root2='root1', sig1='sig2', sig2='sig1'))
    sc.w.pre.append(sc.proof.len == s2.proof.len)
    s2.run()
    agree(ctx, 'the order of the shreds does not matter', sc, s2, 'a proof is accepted in one order of its shreds only')


def c23(ctx, v1, v2):
    """what the leader did not sign has no influence: retransmitter signature, bytes after the shred"""
    l = FULL[is_code(v1)], FULL[is_code(v2)]
    sc, s2 = two(ctx, v1, v2, v1, v2, l, (spec.MAX_SHRED, l[1]), ((1, 1, signed_end(v1)), (2, 2, signed_end(v2))))
    same_ix(sc, s2, {})
    # the report has room for either
    sc.w.pre.append(z3.UGE(sc.pda.lamports, bv((spec.REPORT + 8 + 2 * spec.MAX_SHRED + 128) * 6960)))
    s2.run()
    agree(ctx, 'bytes the leader did not sign do not matter', sc, s2,
          'changing only the retransmitter signature or trailing bytes changes the verdict')


def honest(sc):
    """two shreds of one honestly produced block"""
    a, b = sc.a, sc.b
    cs = [a.version == b.version]
    same_fec = a.fec == b.fec
    # one erasure batch has one merkle tree, and the leader signs its root once
    cs.append(z3.Implies(same_fec, z3.And(a.root() == b.root(), a.sig == b.sig)))
    if a.v & 15 != b.v & 15 or resigned(a.v) != resigned(b.v):
        cs.append(z3.Not(same_fec))
    if (a.code == b.code) and a.v != b.v:
        cs.append(z3.Not(same_fec))
    for x, y in ((a, b), (b, a)):
        if x.code:
            # batches do not overlap
            cs.append(z3.Implies(z3.UGT(y.fec, x.fec), z3.UGE(ze(y.fec), ze(x.fec) + ze(x.num_data))))
    if a.code and b.code:
        cs.append(z3.Implies(same_fec, z3.And(a.num_data == b.num_data, a.num_coding == b.num_coding,
                                              a.index - ze(a.position, 32) == b.index - ze(b.position, 32))))
    if a.code == b.code:
        cs.append(z3.Implies(a.index == b.index, same_fec))
        if not a.code:
            cs.append(z3.Implies(a.last(), U(b.index, a.index)))
            cs.append(z3.Implies(b.last(), U(a.index, b.index)))
    return z3.And(*cs)


def c04(ctx, v1, v2):
    sc = Dup(ctx.mod, v1, v2, **PINNED)
    ctx.watch(sc.w)
    sc.run()
    shred_bound(ctx, sc)
    H = honest(sc)
    if v1 == v2:
        env = sc.w.env
        env.injective(sc.a.leaf, sc.b.leaf)
        for x, y in zip(sc.a.levels, sc.b.levels):
            for i in x:
                for j in y:
                    env.injective(i, j)
    for o, c in accepts(sc):
        ctx.prove('an honest block is never convicted', sc.w, o.st.conds() + [c, H], [o],
                  'two shreds of one honestly produced block are accepted as proof of a duplicate block')
    ctx.reach('honest pairs are submitted', sc.w, [sc.valid(but=('conflict',)), H], [], replay=False)


def c19(ctx, v1, v2, **kw):
    """the roots and signatures that were verified are those of the two shreds"""
    sc = Dup(ctx.mod, v1, v2, **dict(PINNED, **kw))
    ctx.watch(sc.w)
    sc.run()
    shred_bound(ctx, sc)
    for o, c in accepts(sc):
        pre = o.st.conds() + [c]
        for x, r, g in ((sc.a, 'root1', 'sig1'), (sc.b, 'root2', 'sig2')):
            ctx.prove('the shred carries the verified signature', sc.w, pre + [x.sig != sc.ix(g)], [o],
                      'a shred whose signature is not the verified one is accepted')
            ctx.prove('the shred has the verified merkle root', sc.w, pre + [x.root() != sc.ix(r)], [o],
                      'a shred that does not hash to the verified merkle root is accepted')
            ctx.prove('the position is inside the tree', sc.w, pre + [z3.Not(x.tree_index_ok())], [o],
                      'a shred whose position lies outside its merkle tree is accepted')
            ctx.prove('the shred is of the slot', sc.w, pre + [x.slot != sc.ix('slot')], [o],
                      'a shred of another slot is accepted')
        ctx.reach('accepts', sc.w, pre, [o], replay=False)



# ------------------------------------------------------------------ the environment of a submission
ENV_QUICK = ((0x80, 0x80), (0x41, 0x91))
# the same with the layout fixed: subsumed by the cases above, and where a counterexample is found soonest
NEAR = dict(lens=(1203, 1210), offset=0, ixlen=305)
ENV_MORE = ((0x60, 0x80), (0xb1, 0x71), (0x92, 0x92), (0x42, 0x62))


def envs(f, tier, curs=(1, 2), near=PINNED, **kw):
    """submissions in which everything but the two variants is free"""
    ps = ENV_QUICK + (ENV_MORE if tier == 'thorough' else ())
    if tier == 'thorough':
        curs = tuple(curs) + (3,)
    near = [] if near is None else [('near %02x-%02x@%d' % (a, b, 2), f, dict(v1=a, v2=b, cur=2, n=3, **dict(near, **dict(NEAR, **kw)))) for a, b in ((0x80, 0x80),)]
    return near + [('%02x-%02x@%d' % (a, b, k), f, dict(v1=a, v2=b, cur=k, n=max(k + 1, 3), **kw)) for a, b in ps for k in curs]


def env_case(ctx, v1, v2, **kw):
    sc = Dup(ctx.mod, v1, v2, **kw)
    ctx.watch(sc.w)
    sc.run()
    ctx.bound('instruction data up to 400 bytes, signature verification data up to 64 bytes (4 entries), proof account '
              'up to 4000 bytes, report account up to 300 bytes: every content and length')
    ctx.bound('the slashing instruction is instruction 1, 2 (thorough: 3) of its transaction; variant bytes fixed per case')
    return sc


def lazy_and(conds, last):
    """the conjunction; the last part is not even stated when the others are false"""
    c = z3.simplify(z3.And(*conds))
    return c if z3.is_false(c) else z3.And(c, last())


def entry_covers(sc, e, what, n, same, sources=('top', 'own')):
    """entry `e` of the signature verification takes its `what` from bytes for which `same` holds"""
    s = sc.sysvar
    at = s.sig_data_at + 2 + 14 * e
    f = {k: s.rng(at + 2 * i, 2) for i, k in enumerate(('sig', 'sig_ix', 'key', 'key_ix', 'msg', 'msg_len', 'msg_ix'))}
    off, ix = f[what], f[what + '_ix']
    alts = []
    for name, here, length, conds in (
            ('top', s.cur_data_at, s.cur_len, ix == s.cur),
            ('own', s.sig_data_at, s.sig_len, z3.And(ix != s.cur, z3.Or(ix == 0xffff, z3.ULT(ix, s.n))))):
        if name in sources:
            alts.append(lazy_and([conds, U(ze(off) + n, ze(BV(length, 16)))], lambda here=here: same(s.arr, ze(off) + here)))
    if 'data' in sources:
        # where the data of the current instruction is the data of this invocation
        alts.append(lazy_and([ix == s.cur, U(ze(off) + n, BV(sc.ixlen, 64))], lambda: same(sc.data, ze(off))))
    r = z3.Or(*alts)
    return z3.And(r, f['msg_len'] == n) if what == 'msg' else r


def counted(sc, e):
    s = sc.sysvar
    c = z3.simplify(z3.And(z3.ULT(bv(e, 8), s.byte(s.sig_data_at)), z3.UGE(ze(BV(s.sig_len, 16)), 16 + 14 * e)))
    return None if z3.is_false(c) else c


def entry_parts(sc, i, e, sources=('top', 'own')):
    """entry `e` verifies the signature of shred `i`'s root by the node"""
    s = sc.sysvar
    ex = sc.w.ex
    x = sc.a if i == 1 else sc.b

    def range_is(arr, at, n):
        def f(src, off):
            q = ex.arr_range_eq(src, off, arr, BV(at, 64), bv(n))
            return q if isz(q) else z3.BoolVal(q)
        return f
    c = counted(sc, e)
    if c is None:
        return [('counted', z3.BoolVal(False))]
    return [('counted', c),
            ('by the node', entry_covers(sc, e, 'key', 32, range_is(sc.data, IX['node'][0], 32), sources)),
            ('of the shred', entry_covers(sc, e, 'sig', 64, range_is(sc.P, x.at, 64), sources)),
            ('over its root', entry_covers(sc, e, 'msg', 32, lambda src, off: cat([ex.sel(src, off + j) for j in range(32)]) == x.root(),
                                           sources))]


# the documented signature verification but for one field (two entries of seven fields, after count and padding)
SIG_FIELDS = [('count', 0, 1), ('padding', 1, 1)] + \
    [('entry %d %s' % (e, f), 2 + 14 * e + 2 * i, 2) for e in (0, 1) for i, f in enumerate(('signature', 'signature instruction',
     'key', 'key instruction', 'message', 'message size', 'message instruction'))]


def c05near():
    near = dict(v1=0x80, v2=0x80, pin_sig=True, pin_top=True, pin_keys=True, **NEAR)
    key, rep = 2 + 4, IX['reporter'][0]
    moved = [('key 1 elsewhere', [(key, rep)]), ('key 2 elsewhere', [(key + 14, rep)]), ('keys elsewhere', [(key, rep), (key + 14, rep)]),
             ('signatures swapped', [(2, 241), (16, 145)]), ('messages swapped', [(10, 209), (24, 113)]),
             ('one message twice', [(24, 113)]), ('one signature twice', [(16, 145)]),
             ('entries swapped', [(2, 241), (16, 145), (10, 209), (24, 113)])]
    return [(name, c05, dict(near, sig_set=m)) for name, m in moved] + \
           [('any %s' % name, c05, dict(v1=0x80, v2=0x80, pin_sig=True, pin_top=True, pin_keys=True, sig_free=(o, n), **NEAR))
            for name, o, n in SIG_FIELDS] + \
           [('any program', c05, dict(v1=0x80, v2=0x80, pin_sig=True, pin_top=True, pin_keys=True, prog_free=True, **NEAR)),
            ('any data of the instruction', c05, dict(v1=0x80, v2=0x80, pin_sig=True, pin_keys=True, **NEAR))]


def c05(ctx, v1, v2, **kw):
    sc = env_case(ctx, v1, v2, **kw)
    s = sc.sysvar
    prog = z3.And(z3.UGE(ze(BV(s.sig_len, 16)), bv(2)), s.rng(s.sig_prog_at, 32) == le(ED25519_ID))
    says = 'a proof is accepted although the transaction did not verify the signature of shred %d by the node'
    for o, c in accepts(sc):
        pre = o.st.conds() + [c]
        ctx.prove('the ed25519 program ran', sc.w, pre + [z3.Not(prog)], [o], says % 1)
        same = ctx.holds('the signatures are over the data of this invocation', sc.w, pre + [z3.Not(sc.top_same())])
        for i in (1, 2):
            # the usual place first; any other entry will do
            if same and all(ctx.holds('signature %d was verified: %s' % (i, name), sc.w, pre + [z3.Not(p)])
                   for name, p in entry_parts(sc, i, i - 1, ('data',))):
                continue
            any_entry = z3.Or(*[z3.And(*[p for _, p in entry_parts(sc, i, e)]) for e in range(4) if counted(sc, e) is not None])
            ctx.prove('signature %d was verified' % i, sc.w, pre + [z3.Not(any_entry)], [o], says % i)
        ctx.reach('accepts', sc.w, pre, [o], replay=False)


def c07(ctx, v1, v2, **kw):
    sc = env_case(ctx, v1, v2, **kw)
    for o, c in accepts(sc):
        pre = o.st.conds() + [c]
        ctx.prove('the report is at its canonical address', sc.w, pre + [sc.pda.key != sc.pda_key()], [o],
                  'a report is stored in an account that is not at the address derived from node, slot and violation')
        ctx.reach('accepts', sc.w, pre, [o], replay=False)
    V = sc.valid(but=('address',))
    for o in sc.outs:
        d = [z3.Not(sc.err(o, 'InvalidReportAccount'))] if o.kind == 'ret' else []
        ctx.prove('any other address is refused', sc.w, o.st.conds() + [V, sc.pda.key != sc.pda_key()] + d, [o],
                  'a submission with the wrong report account is not refused as such')


def c08(ctx, v1, v2, **kw):
    sc = env_case(ctx, v1, v2, **kw)
    w, pda = sc.w, sc.pda
    k = w.v('k', 64)
    for o, c in accepts(sc):
        pre = o.st.conds() + [c]

        def p(name, bad, says):
            ctx.prove(name, w, pre + [bad], [o], says)
        p('size', pda.now_len(w.ex, o.st) != spec.REPORT + 8 + sc.l1 + sc.l2, 'the report account has the wrong size')
        p('owner', pda.now_owner(w.ex, o.st) != le(PROGRAM_ID), 'the report is not owned by the program')
        for name, off, want in (('version', 0, bv(1, 8)), ('reporter', 1, sc.ix('reporter')),
                                ('destination', 33, sc.ix('destination')), ('epoch', 65, sc.clock['epoch']),
                                ('node', 73, sc.ix('node')), ('slot', 105, sc.ix('slot')), ('type', 113, bv(1, 8))):
            p('field ' + name, sc.post_rng(o, off, want.size() // 8) != want, 'the report has the wrong ' + name)
        p('length 1', sc.post_rng(o, 114, 4) != z3.Extract(31, 0, sc.l1), 'the stored proof has the wrong first length')
        n1 = 118 + sc.l1
        p('shred 1', z3.And(z3.ULT(k, sc.l1), sc.post(o, 118 + k) != w.ex.sel(sc.P, sc.at1 + k)),
          'the first shred in the report is not the one submitted')
        p('length 2', cat([sc.post(o, n1 + i) for i in range(4)]) != z3.Extract(31, 0, sc.l2),
          'the stored proof has the wrong second length')
        p('shred 2', z3.And(z3.ULT(k, sc.l2), sc.post(o, n1 + 4 + k) != w.ex.sel(sc.P, sc.at2 + k)),
          'the second shred in the report is not the one submitted')
        others(p, sc, o, (sc.proof, sc.sysvar, sc.sys), k)
        ctx.reach("accepts", w, pre, [o], replay=False)


def others(p, sc, o, accts, k):
    """no account but the report changes"""
    w = sc.w
    for a in accts:
        p(a.name + ' untouched', z3.Or(a.now_owner(w.ex, o.st) != a.owner, a.now_lamports(w.ex, o.st) != a.lamports,
                                       a.now_len(w.ex, o.st) != BV(a.len, 64)),
          'the %s account changes' % a.name)
        if not isinstance(a, Sysvar):
            p(a.name + ' data untouched', z3.And(z3.ULT(k, BV(a.len, 64)),
                                                 BV(a.byte_now(w.ex, o.st, k), 8) != w.ex.sel(a.arr, k)),
              'the data of the %s account changes' % a.name)


def c09(ctx, v1, v2, **kw):
    sc = env_case(ctx, v1, v2, **kw)
    exists = z3.And(sc.pda.owner == le(PROGRAM_ID), z3.UGE(BV(sc.pda.len, 64), spec.REPORT), sc.w.ex.sel(sc.pda.arr, 0) == 1)
    V = sc.valid(but=('fresh', 'prefunded', 'destination'))
    for o in sc.outs:
        if o.kind == 'ret':
            ctx.prove('an existing report is not replaced', sc.w, o.st.conds() + [sc.ret(o, 0), exists], [o],
                      'a second report of a violation is accepted and overwrites the first')
            d = [z3.Not(sc.err(o, 'DuplicateReport'))]
        else:
            d = []
        ctx.prove('a second report is refused as a duplicate', sc.w, o.st.conds() + [V, exists] + d, [o],
                  'a second report of a violation is not refused as a duplicate')
    ctx.reach('second reports exist', sc.w, [V, exists], [], replay=False)


def c10(ctx, v1, v2, **kw):
    sc = env_case(ctx, v1, v2, **kw)
    V = sc.valid(but=('statute',))
    c = sc.clock['slot']
    future = z3.ULT(c, sc.ix('slot'))
    for o in sc.outs:
        if o.kind == 'ret':
            ctx.prove('only violations of the last epoch of slots', sc.w, o.st.conds() + [sc.ret(o, 0), z3.Not(sc.statute())],
                      [o], 'a violation outside the statute of limitations is accepted')
            d = [z3.Not(sc.err(o, 'ExceedsStatute'))]
        else:
            d = []
        ctx.prove('late reports are refused as such', sc.w,
                  o.st.conds() + [V, z3.Not(sc.statute()), z3.Not(future)] + d, [o],
                  'a report after the statute of limitations is not refused as such')
    ctx.reach('late reports exist', sc.w, [V, z3.Not(sc.statute()), z3.Not(future)], [], replay=False)
    ctx.reach('reports at the limit exist', sc.w, [V, c - sc.ix('slot') == sc.w.env.schedule['slots_per_epoch']], [],
              replay=False)


def c11(ctx, v1, v2, **kw):
    sc = env_case(ctx, v1, v2, **kw)
    w = sc.w
    for o, c in accepts(sc):
        pre = o.st.conds() + [c]
        ctx.prove('a report is rent exempt', w, pre + [z3.Not(z3.UGE(sc.pda.now_lamports(w.ex, o.st), sc.rent(sc.pda.now_len(w.ex, o.st))))],
                  [o], 'a report is stored in an account that cannot pay for it')
        ctx.prove('no lamports move', w, pre + [sc.pda.now_lamports(w.ex, o.st) != sc.pda.lamports], [o],
                  'storing a report changes the lamports of the report account')
        ctx.prove('the destination is another account', w, pre + [sc.ix('destination') == sc.pda.key], [o],
                  'a report is its own destination')
    for miss, code, bad, says in (('prefunded', 'NotPrefunded', z3.Not(sc.prefunded()), 'an underfunded report account'),
                                  ('destination', 'DestinationIsReport', sc.ix('destination') == sc.pda_key(),
                                   'the report account as destination')):
        V = sc.valid(but=(miss,))
        for o in sc.outs:
            d = [z3.Not(sc.err(o, code))] if o.kind == 'ret' else []
            ctx.prove(miss + ' is enforced', w, o.st.conds() + [V, bad] + d, [o], says + ' is not refused as such')
        ctx.reach(miss + ' can fail', w, [V, bad], [], replay=False)


def c15(ctx, v1, v2, **kw):
    sc = env_case(ctx, v1, v2, **kw)
    w = sc.w
    for o in sc.outs:
        if o.kind != 'ret':
            continue
        pre = o.st.conds()
        ctx.prove('the instructions sysvar is genuine', w, pre + [sc.ret(o, 0), sc.sysvar.key != le(INSTRUCTIONS_ID)], [o],
                  'another account is taken for the instructions sysvar')
        ctx.prove('the system program is genuine', w, pre + [sc.ret(o, 0), sc.sys.key != le(SYSTEM_ID)], [o],
                  'another account is taken for the system program')
    V = sc.valid(but=('keys',))
    for code, bad in (('MissingSysvar', z3.And(sc.sysvar.key != le(INSTRUCTIONS_ID), sc.sys.key == le(SYSTEM_ID))),
                      ('MissingSystem', z3.And(sc.sysvar.key == le(INSTRUCTIONS_ID), sc.sys.key != le(SYSTEM_ID)))):
        for o in sc.outs:
            d = [z3.Not(sc.err(o, code))] if o.kind == 'ret' else []
            ctx.prove(code, w, o.st.conds() + [V, bad] + d, [o], 'a wrong account is not refused as such (%s)' % code)
        ctx.reach(code, w, [V, bad], [], replay=False)


def c15n(ctx, n):
    sc = Dup(ctx.mod, None, None, naccts=n)
    ctx.watch(sc.w)
    sc.run()
    ctx.bound('account lists shorter than required: every length')
    for o in sc.outs:
        d = [z3.Not(sc.ret(o, spec.NOT_ENOUGH_KEYS))] if o.kind == 'ret' else []
        ctx.prove('too few accounts for a submission', sc.w, o.st.conds() + [sc.is_submission()] + d, [o], 'a submission with too few accounts is not refused as such')


def c15c(ctx, n):
    sc = Close(ctx.mod, naccts=n)
    ctx.watch(sc.w)
    sc.run()
    for o in sc.outs:
        d = [z3.Not(sc.ret(o, spec.NOT_ENOUGH_KEYS))] if o.kind == 'ret' else []
        ctx.prove('too few accounts for a close', sc.w, o.st.conds() + [z3.UGE(sc.ixlen, 1)] + d, [o], 'a close with too few accounts is not refused as such')


# ------------------------------------------------------------------ closing
def close_case(ctx, **kw):
    sc = Close(ctx.mod, **kw)
    ctx.watch(sc.w)
    sc.w.pre.append(z3.UGE(sc.ixlen, 1))
    sc.run()
    ctx.bound('report accounts of up to 3000 bytes and instruction data of up to 400 bytes: every content and length')
    return sc


def c12(ctx):
    sc = close_case(ctx)
    w = sc.w
    room = z3.UGE(sc.dest.lamports + sc.report.lamports, sc.dest.lamports)
    right = sc.dest.key == sc.destination()
    eligible = z3.And(sc.ours(), sc.old_enough(), right)
    cases = (('not a report', 'InvalidReportAccount', z3.Not(sc.ours())),
             ('too soon', 'CloseTooSoon', z3.And(sc.ours(), right, z3.Not(sc.old_enough()))),
             ('wrong destination', 'InvalidDestination', z3.And(sc.ours(), sc.old_enough(), z3.Not(right))))
    for o in sc.outs:
        pre = o.st.conds()
        if o.kind == 'ret':
            ctx.prove('only an eligible report is closed', w, pre + [sc.ret(o, 0), z3.Not(eligible)], [o],
                      'a report is closed too soon, to the wrong destination, or an account that is no report is closed')
        d = [z3.Not(sc.ret(o, 0))] if o.kind == 'ret' else []
        ctx.prove('an eligible report is closed', w, pre + [eligible, room] + d, [o], 'an eligible report cannot be closed')
        for name, code, bad in cases:
            d = [z3.Not(sc.err(o, code))] if o.kind == 'ret' else []
            ctx.prove(name, w, pre + [bad] + d, [o], 'a close is not refused as it should be: ' + name)
    for name, code, bad in cases:
        ctx.reach(name, w, [bad], [], replay=False)
    for o, c in sc.accepted():
        ctx.reach('closes', w, o.st.conds() + [c], [o])


def c13(ctx):
    sc = close_case(ctx)
    w = sc.w
    k = w.v('k', 64)
    r, d = sc.report, sc.dest
    for o, c in accepts(sc):
        pre = o.st.conds() + [c]

        def p(name, bad, says):
            ctx.prove(name, w, pre + [bad], [o], says)
        p('report emptied', z3.Or(r.now_len(w.ex, o.st) != 0, r.now_owner(w.ex, o.st) != le(SYSTEM_ID),
                                  r.now_lamports(w.ex, o.st) != 0), 'a closed report keeps data, owner or lamports')
        p('destination credited', z3.Or(d.now_lamports(w.ex, o.st) != d.lamports + r.lamports,
                                        z3.ULT(d.lamports + r.lamports, d.lamports)),
          'the destination is not credited with exactly the lamports of the report')
        p('destination otherwise untouched', z3.Or(d.now_owner(w.ex, o.st) != d.owner, d.now_len(w.ex, o.st) != BV(d.len, 64),
                                                   z3.And(z3.ULT(k, BV(d.len, 64)),
                                                          BV(d.byte_now(w.ex, o.st, k), 8) != w.ex.sel(d.arr, k))),
          'closing changes more of the destination than its lamports')
        ctx.reach('closes', w, pre, [o])


def c13dup(ctx):
    sc = close_case(ctx, dup={1: 0})
    w = sc.w
    for o, c in accepts(sc):
        ctx.prove('a report is not closed into itself', w, o.st.conds() + [c, sc.destination() != sc.report.key], [o],
                  'a report is closed with itself as the destination')


def c14(ctx, v1, v2, **kw):
    """close, then submit the same violation again"""
    w = World(ctx.mod)
    cl = Close(ctx.mod, world=w, suffix='.close', max_report=300)
    ctx.watch(w)
    ctx.bound('a close and a later submission of the same violation, with arbitrary clocks of epochs of equal length')
    r = cl.report
    node, slot = cl.field(73, 32), cl.field(105, 8)
    w.pre += [cl.ours(), cl.field(0, 1) == 1, cl.field(113, 1) == 1]
    first = dict(w.env.clock)
    then = {k: w.v('then.' + k, 64) for k in first}
    spe = w.env.schedule['slots_per_epoch']
    e = cl.epoch()
    # end of the epoch of the report, in which the slot had already begun
    end = w.v('end of epoch', 64)
    big = bv(1 << 40)
    w.pre += [z3.ULT(slot, end), z3.ULT(end, big), z3.ULT(spe, big), z3.UGE(spe, 1), z3.ULT(e, big), z3.ULT(first['epoch'], big),
              z3.UGE(first['epoch'], e), z3.UGE(then['slot'], first['slot']), z3.ULT(then['slot'], big << 8),
              z3.UGE(then['epoch'], first['epoch'])]
    for d in (1, 2, 3):
        w.pre.append(z3.Implies(z3.UGE(first['epoch'], e + d), z3.UGE(first['slot'], end + (d - 1) * spe)))
    cl.run()
    sc = None
    n = 0
    for o, c in accepts(cl):
        n += 1
        st = o.st.fork()
        st.assume(c)
        w.env.clock = then
        w.calls[1:] = []
        sc = Dup(ctx.mod, v1, v2, world=w, suffix=".%d" % n, pda=r, **kw)
        # anybody can fund the address again
        w.ex.store(st, Ptr(r.h, 72), w.v('refund%d' % n, 64), 8)
        sc.run(st)
        for q, a in accepts(sc):
            same = z3.And(sc.ix('node') == node, sc.ix('slot') == slot)
            ctx.prove('a closed report is not filed again', w, q.st.conds() + [a, same], [o, q],
                      'a violation is reported again after its report was closed')
            ctx.reach('accepted after another close', w, q.st.conds() + [a], [], replay=False)
    w.env.clock = first


# ------------------------------------------------------------------ input format
def c16(ctx, **kw):
    sc = Dup(ctx.mod, 0x80, 0x80, tag=None, **kw)
    ctx.watch(sc.w)
    sc.run()
    ctx.bound('instruction data of up to 400 bytes, every content and length')
    n, tag = BV(sc.ixlen, 64), sc.w.ex.sel(sc.data, 0)
    V = sc.valid(but=('submission', 'sig'))
    some = n != 0
    for o in sc.outs:
        pre = o.st.conds()
        ret = o.kind == 'ret'

        def p(name, cond, code, says):
            d = [z3.Not(sc.ret(o, code))] if ret else []
            ctx.prove(name, sc.w, pre + [cond] + d, [o], says)
        p('empty data', n == 0, spec.INVALID_INSTRUCTION_DATA, 'empty instruction data is not refused as such')
        p('unknown instruction', z3.And(some, z3.UGE(tag, 2)), spec.ERR['InvalidInstruction'],
          'an unknown instruction is not refused as such')
        p('wrong length', z3.And(some, tag == 1, n != spec.IX_LEN, sc.keys_ok()), spec.INVALID_INSTRUCTION_DATA,
          'submission data of the wrong length is not refused as such')
        if ret:
            ctx.prove('acceptance needs a known instruction', sc.w,
                      pre + [sc.ret(o, 0), z3.Or(n == 0, z3.UGE(tag, 2), z3.And(tag == 1, n != spec.IX_LEN))], [o],
                      'malformed instruction data is accepted')
    ctx.reach('well-formed data exists', sc.w, [V, n == spec.IX_LEN, tag == 1], [], replay=False)


def c18(ctx, v1, v2, **kw):
    """v1 or v2 None: any variant but the supported ones"""
    sc = Dup(ctx.mod, v1, v2, **dict(PINNED, **kw))
    ctx.watch(sc.w)
    w = sc.w
    shred_bound(ctx, sc)
    bad = []
    for v, at in ((v1, sc.at1), (v2, sc.at2)):
        if v is None:
            x = w.ex.sel(sc.P, at + 64)
            bad.append(z3.And(*[x != k for k in sorted(VALID)]))
    w.pre += bad
    sc.run()
    for o, c in accepts(sc):
        ctx.prove('unsupported shreds are refused', w, o.st.conds() + [c], [o],
                  'a legacy shred or one of an unknown variant is accepted')
    V = sc.valid(but=('full', 'authentic', 'sane', 'conflict'))
    for l in (sc.l1, sc.l2):
        V = z3.And(V, z3.UGE(l, bv(1203)))
    legacy = []
    for v, at in ((v1, sc.at1), (v2, sc.at2)):
        if v is None:
            x = w.ex.sel(sc.P, at + 64)
            legacy.append(z3.Or(x == 0xa5, x == 0x5a))
    for o in sc.outs:
        if not o.kind == 'ret':
            ctx.prove('unsupported shreds cause no failure', w, o.st.conds() + [V], [o], 'an unsupported shred makes the program fail')
            continue
        ctx.prove('legacy shreds are refused as such', w, o.st.conds() + [V, legacy[0], z3.Not(sc.err(o, 'LegacyShreds'))], [o],
                  'a legacy shred is not refused as such')
        ctx.prove('unknown shreds are refused as such', w, o.st.conds() + [V, z3.Not(legacy[0]), z3.Not(sc.err(o, 'InvalidVariant'))],
                  [o], 'a shred of unknown variant is not refused as such')
    ctx.reach('such submissions exist', w, [V], [], replay=False)


def c20(ctx, v1, v2, **kw):
    sc = env_case(ctx, v1, v2, **kw)
    no_failure(ctx, sc)


def no_failure(ctx, sc):
    if not any(o.kind in ('panic', 'ub') for o in sc.outs):
        # the solver has ruled out every branch to a panic and every invalid access on the way
        ctx.discharged.append(('no input leads to a panic or an invalid access', 0))
    for o in sc.outs:
        if o.kind in ('panic', 'ub'):
            ctx.prove('no panic', sc.w, o.st.conds(), [o], 'the program panics')
    for o in sc.outs:
        if o.kind == 'ret':
            ctx.reach('returns', sc.w, o.st.conds(), [o])
            break


def c20v(ctx, v1, v2):
    sc = Dup(ctx.mod, v1, v2, **PINNED)
    ctx.watch(sc.w)
    sc.run()
    shred_bound(ctx, sc)
    no_failure(ctx, sc)


def c20c(ctx, **kw):
    no_failure(ctx, close_case(ctx, **kw))


def c20n(ctx, n):
    sc = Dup(ctx.mod, 0x80, 0x80, naccts=n, tag=None)
    ctx.watch(sc.w)
    sc.run()
    no_failure(ctx, sc)



# ------------------------------------------------------------------ why a submission is refused
def refusals(ctx, sc, table, reach=True):
    """table: (what is wrong, the condition under which nothing else is, the documented error, claim)"""
    for name, cond, code, says in table:
        for o in sc.outs:
            d = [z3.Not(sc.err(o, code))] if o.kind == 'ret' else []
            ctx.prove(name, sc.w, o.st.conds() + [cond] + d, [o], says + ' is not refused as such')
        if reach:
            ctx.reach(name, sc.w, [cond], [], replay=False)


def c06(ctx, v1, v2):
    sc = Dup(ctx.mod, v1, v2, **PINNED)
    ctx.watch(sc.w)
    sc.run()
    shred_bound(ctx, sc)
    a, b = sc.a, sc.b
    V = sc.valid(but=('conflict',))
    slots = z3.And(a.slot == sc.ix('slot'), b.slot == sc.ix('slot'))
    vers = a.version == b.version
    tree = z3.And(a.tree_index_ok(), b.tree_index_ok())
    same = z3.And(V, slots, vers, z3.Not(conflict(sc)))
    table = [
        ('truncated proof', z3.And(sc.valid(but=('layout', 'full', 'authentic', 'sane', 'conflict')), z3.Not(sc.layout_ok())),
         'BufferTooSmall', 'a proof account that ends before the shreds do'),
        ('not the verified signature', z3.And(sc.valid(but=('authentic',)), tree, a.root() == sc.ix('root1'),
                                              b.root() == sc.ix('root2'), z3.Or(a.sig != sc.ix('sig1'), b.sig != sc.ix('sig2'))),
         'VerificationMismatch', 'a shred with another signature than the verified one'),
        ('not the verified root', z3.And(sc.valid(but=('authentic',)), tree, a.sig == sc.ix('sig1'), b.sig == sc.ix('sig2'),
                                         z3.Or(a.root() != sc.ix('root1'), b.root() != sc.ix('root2'))),
         'VerificationMismatch', 'a shred with another merkle root than the verified one'),
        ('another slot', z3.And(V, vers, z3.Not(slots)), 'SlotMismatch', 'a shred of another slot'),
        ('another version', z3.And(V, slots, z3.Not(vers)), 'Version', 'a pair of shreds of different versions')]
    if a.code != b.code:
        table.append(('no conflict between types', same, 'TypeMismatch', 'a pair of shreds of different types without conflict'))
    else:
        table += [('the same shred', z3.And(same, a.index == b.index), 'Payload', 'a shred reported twice'),
                  ('no conflict', z3.And(same, a.index != b.index), 'ErasureMeta' if a.code else 'LastIndex',
                   'a pair of shreds without conflict')]
    refusals(ctx, sc, table, v1 & 15 < 2)


def c06env(ctx, v1, v2, **kw):
    sc = env_case(ctx, v1, v2, **kw)
    s = sc.sysvar
    V = sc.valid(but=('sig',))
    if sc.cur == 0:
        refusals(ctx, sc, [('nothing verified', z3.And(V, sc.top_same()), 'MissingVerification',
                            'a submission without signature verification')])
        return
    ed = s.rng(s.sig_prog_at, 32) == le(ED25519_ID)
    long = z3.UGE(BV(s.sig_len, 16), 30)
    refusals(ctx, sc, [
        ('not the ed25519 program', z3.And(V, sc.top_same(), z3.Not(ed), long, s.rng(s.sig_data_at, 30) == le(spec.Sigverify.canonical(sc.cur))),
         'MissingVerification', 'a submission without signature verification'),
        ('too few signatures', z3.And(V, sc.top_same(), ed, long, z3.ULT(s.rng(s.sig_data_at, 1), 2)),
         'MissingVerification', 'a submission with fewer than two verified signatures'),
        ('another instruction was verified', z3.And(sc.valid(but=('sig',)), ed, long,
                                                    s.rng(s.sig_data_at, 30) == le(spec.Sigverify.canonical(sc.cur)), z3.Not(sc.top_same())),
         'InvalidVerification', 'a submission whose data is not that of the top level instruction')])


# ------------------------------------------------------------------ what clients use
def key_bytes(n):
    return n.to_bytes(32, 'little')


def at_ptr(ex, st, p, off, n):
    return BV(ex.load(st, ex.gep(ex.deref(st, p), off), n), 8 * n)


def client_prover(ctx, w, arrs, fn, args, outs, oracle, st_conds):
    """-> p(name, bad, says): prove `bad` impossible; otherwise run the real code on the inputs and ask the oracle"""
    def native_says(T, m):
        vals = []
        for a in args:
            if isinstance(a, tuple):
                arr, n = a
                n = concrete.evi(m, n)
                vals.append(bytes(T.byte(arr, i) for i in range(n)))
            else:
                vals.append(concrete.evi(m, a))
        got = native.client(ctx.so, fn, vals, outs)
        return dict(fn=fn, args=vals, outs=outs), oracle(vals, got)

    def p(name, bad, says):
        ctx.prove_client(name, w, st_conds + [bad], native_says, says)
    return p


def c17unpack(ctx):
    w = World(ctx.mod)
    ctx.watch(w)
    ctx.bound('proof buffers of up to 4000 bytes, every content and length')
    D, n = w.arr('proof'), w.v('len', 64)
    w.pre.append(z3.ULE(n, 4000))
    st = w.start()
    d = w.buf(st, D, n)
    out = w.ex.new_obj(st, 32, kind='out')
    outs = w.call(st, 'v_unpack', [d, n, out])
    b = lambda o: cat([w.ex.sel(D, o + i) for i in range(4)])
    l1 = ze(b(bv(0)))
    l2 = ze(b(4 + l1))
    ok = z3.And(U(bv(4), n), U(l1, n - 4), U(bv(4), n - 4 - l1), U(l2, n - 8 - l1))

    def oracle(vals, got):
        x = vals[0]

        def f():
            if len(x) < 4:
                return None
            a = struct.unpack('<I', x[:4])[0]
            if len(x) < 8 + a:
                return None
            c = struct.unpack('<I', x[4 + a:8 + a])[0]
            return None if len(x) < 8 + a + c else (x[4:4 + a], x[8 + a:8 + a + c])
        want = f()
        if got[0] != 'ret':
            return 'fails: %s' % (got,)
        r, raw, sl = got[1]
        if (want is None) != (r != 0):
            return 'result %d' % r
        if want is None:
            return None if r == 19 else 'result %d' % r
        return None if (sl[0][0], sl[16][0]) == want and (sl[0][1], sl[16][1]) == tuple(map(len, want)) else 'wrong shreds'
    for o in outs:
        pre = o.st.conds()
        p = client_prover(ctx, w, (D,), 'v_unpack', ((D, n), n), 32, oracle, pre)
        if o.kind != 'ret':
            p('no failure', z3.BoolVal(True), 'reading a proof fails')
            continue
        r = BV(o.value, 64)
        p('malformed proofs are refused', z3.And(z3.Not(ok), r != 19), 'a malformed proof is read')
        p('well-formed proofs are read', z3.And(ok, r != 0), 'a well-formed proof is refused')
        if w.ex.must(o.st, r == 0):
            for i, (at, l) in enumerate(((bv(4), l1), (8 + l1, l2))):
                q = w.ex.load(o.st, Ptr(out.obj, 16 * i), 8)
                k = BV(w.ex.load(o.st, Ptr(out.obj, 16 * i + 8), 8), 64)
                p('shred %d has its length' % (i + 1), k != l, 'a shred is read with the wrong length')
                q = w.ex.deref(o.st, q)
                j = w.v('j', 64)
                byte = BV(w.ex.entry_bv(w.ex.read_entry(o.st, w.ex.obj(o.st, q.obj), w.ex._add(q.off, j))), 8)
                p('shred %d is what was stored' % (i + 1), z3.And(z3.ULT(j, l), byte != w.ex.sel(D, at + j)),
                  'a shred is read from the wrong place')
            ctx.reach('reads', w, pre + [ok], [], replay=False)


def c17pack(ctx, low=0, fixed=None):
    w = World(ctx.mod)
    w.ex.nomerge = True
    ctx.watch(w)
    ctx.bound('shreds of %s bytes, every content' % ('%d and %d' % fixed if fixed else '%d to 3000' % low))
    A, B, l1, l2 = w.arr('shred1'), w.arr('shred2'), w.v('l1', 64), w.v('l2', 64)
    w.pre += [z3.ULE(l1, 3000), z3.ULE(l2, 3000), z3.UGE(l1, low), z3.UGE(l2, low)]
    if fixed:
        l1, l2 = map(bv, fixed)
    st = w.start()
    a, b = w.buf(st, A, l1), w.buf(st, B, l2)
    out = w.ex.new_obj(st, 48, kind='out')
    outs = w.call(st, 'v_pack', [a, l1, b, l2, out])

    def oracle(vals, got):
        x, _, y, _ = vals
        want = struct.pack('<I', len(x)) + x + struct.pack('<I', len(y)) + y
        if got[0] != 'ret':
            return 'fails: %s' % (got,)
        r, raw, sl = got[1]
        n, m = struct.unpack('<Q', raw[24:32])[0], struct.unpack('<Q', raw[40:48])[0]
        return None if sl[0] == (want, len(want)) and n == len(want) and m == len(want) + 114 else 'wrong bytes or sizes'
    for o in outs:
        pre = o.st.conds()
        p = client_prover(ctx, w, (A, B), 'v_pack', ((A, l1), l1, (B, l2), l2), 48, oracle, pre)
        if o.kind != 'ret':
            p('no failure', z3.BoolVal(True), 'packing a proof fails')
            continue
        ld = lambda off: BV(w.ex.load(o.st, Ptr(out.obj, off), 8), 64)
        n = l1 + l2 + 8
        p('length', ld(8) != n, 'a packed proof has the wrong length')
        p('announced length', ld(24) != n, 'the announced length of a proof is wrong')
        p('announced report', ld(40) != n + 114, 'the announced length of a report is wrong')
        q = w.ex.deref(o.st, w.ex.load(o.st, Ptr(out.obj, 0), 8))
        j = w.v('j', 64)

        def byte(off):
            return BV(w.ex.entry_bv(w.ex.read_entry(o.st, w.ex.obj(o.st, q.obj), w.ex._add(q.off, off))), 8)
        word = lambda off: cat([byte(off + i) for i in range(4)])
        p('first length', word(bv(0)) != z3.Extract(31, 0, l1), 'a packed proof names the wrong first length')
        p('first shred', z3.And(z3.ULT(j, l1), byte(4 + j) != w.ex.sel(A, j)), 'a packed proof alters the first shred')
        p('second length', word(4 + l1) != z3.Extract(31, 0, l2), 'a packed proof names the wrong second length')
        p('second shred', z3.And(z3.ULT(j, l2), byte(8 + l1 + j) != w.ex.sel(B, j)), 'a packed proof alters the second shred')
        ctx.reach('packs', w, pre, [], replay=False)


def ix_of(w, st, out, off):
    """(program, accounts [(key, signer, writable)], data pointer, data length) of an instruction the harness put out"""
    ex = w.ex
    prog = BV(ex.load(st, Ptr(out.obj, off), 32), 256)
    n = ex.load(st, Ptr(out.obj, off + 40), 8)
    if type(n) is not int:
        raise Unsupported('symbolic number of accounts')
    mp = ex.load(st, Ptr(out.obj, off + 32), 8)
    metas = [(at_ptr(ex, st, mp, 34 * i, 32), at_ptr(ex, st, mp, 34 * i + 32, 1), at_ptr(ex, st, mp, 34 * i + 33, 1))
             for i in range(n)]
    l = ex.load(st, Ptr(out.obj, off + 56), 8)
    if type(l) is not int:
        raise Unsupported('symbolic length of instruction data')
    dp = ex.load(st, Ptr(out.obj, off + 48), 8)
    data = [at_ptr(ex, st, dp, i, 1) for i in range(l)]
    return prog, metas, data


def ix_is(got, prog, metas, data):
    """condition: an instruction is exactly this one"""
    if len(got[1]) != len(metas) or len(got[2]) != len(data):
        return z3.BoolVal(False)
    cs = [got[0] == prog]
    for g, x in zip(got[1], metas):
        cs += [g[0] == x[0], g[1] == int(x[1]), g[2] == int(x[2])]
    cs += [g == BV(x, 8) for g, x in zip(got[2], data)]
    return z3.And(*cs)


def ix_native(got, off, prog, metas, data):
    _, raw, sl = got[1]
    want = b''.join(k + bytes([s, wr]) for k, s, wr in metas)
    return raw[off:off + 32] == prog and sl[off + 32] == (want, len(metas)) and sl[off + 48] == (data, len(data))


def c21close(ctx):
    w = World(ctx.mod)
    ctx.watch(w)
    R, D = w.arr('report'), w.arr('dest')
    st = w.start()
    out = w.ex.new_obj(st, 64, kind='out')
    outs = w.call(st, 'v_ix_close', [w.buf(st, R, 32), w.buf(st, D, 32), out])
    key = lambda X: cat([w.ex.sel(X, i) for i in range(32)])

    def oracle(vals, got):
        return None if got[0] == 'ret' and ix_native(got, 0, PROGRAM_ID, [(vals[0], 0, 1), (vals[1], 0, 1)], b'\0') else 'wrong instruction'
    for o in outs:
        p = client_prover(ctx, w, (R, D), 'v_ix_close', ((R, 32), (D, 32)), 64, oracle, o.st.conds())
        good = ix_is(ix_of(w, o.st, out, 0), le(PROGRAM_ID), [(key(R), 0, 1), (key(D), 0, 1)], [0]) if o.kind == 'ret' \
            else z3.BoolVal(False)
        p('the close instruction', z3.Not(good), 'the client builds a wrong close instruction')


def c21dup(ctx, full=False, funder=False):
    w = World(ctx.mod)
    ctx.watch(w)
    ctx.bound('every value of every field')
    K, F, S = w.arr('proof key'), w.arr('fields'), w.arr('funder')
    st = w.start()
    out = w.ex.new_obj(st, 192, kind='out')
    k, f, s = w.buf(st, K, 32), w.buf(st, F, 304), w.buf(st, S, 32)
    if full:
        outs = w.call(st, 'v_ix_full', [k, f, s, int(funder), out])
        args = ((K, 32), (F, 304), (S, 32), int(funder))
    else:
        outs = w.call(st, 'v_ix_dup', [k, f, out])
        args = ((K, 32), (F, 304))
    rng = lambda X, o, n: cat([w.ex.sel(X, o + i) for i in range(n)])
    pda = w.env.pda((8 * 41, z3.Concat(bv(1, 8), rng(F, 8, 8), rng(F, 16, 32))), le(PROGRAM_ID))[0]
    lamports = (spec.REPORT + 8 + 2 * spec.MAX_SHRED + 128) * 6960

    def oracle(vals, got):
        if got[0] != 'ret':
            return 'fails'
        key, fl = vals[:2]
        addr = native.find_address(fl[16:48] + fl[8:16] + b'\1', PROGRAM_ID)[0]
        sub = (PROGRAM_ID, [(key, 0, 0), (addr, 0, 1), (INSTRUCTIONS_ID, 0, 0), (SYSTEM_ID, 0, 0)], b'\1' + fl)
        if not full:
            return None if ix_native(got, 0, *sub) else 'wrong instruction'
        payer = vals[2] if funder else fl[48:80]
        ok = ix_native(got, 0, SYSTEM_ID, [(payer, 1, 1), (addr, 0, 1)], struct.pack('<IQ', 2, lamports)) and \
            ix_native(got, 64, ED25519_ID, [], Sigverify.canonical(2)) and ix_native(got, 128, *sub)
        return None if ok else 'wrong instructions'
    for o in outs:
        p = client_prover(ctx, w, (K, F, S), 'v_ix_full' if full else 'v_ix_dup', args, 192, oracle, o.st.conds())
        if o.kind != 'ret':
            p('no failure', z3.BoolVal(True), 'building the instruction fails')
            continue
        sub = (le(PROGRAM_ID), [(rng(K, 0, 32), 0, 0), (pda, 0, 1), (le(INSTRUCTIONS_ID), 0, 0), (le(SYSTEM_ID), 0, 0)],
               [1] + [w.ex.sel(F, i) for i in range(304)])
        if not full:
            p('the submission', z3.Not(ix_is(ix_of(w, o.st, out, 0), *sub)), 'the client builds a wrong submission')
            continue
        payer = rng(S, 0, 32) if funder else rng(F, 48, 32)
        p('the submission', z3.Not(ix_is(ix_of(w, o.st, out, 128), *sub)), 'the client builds a wrong submission')
        p('the signature verification', z3.Not(ix_is(ix_of(w, o.st, out, 64), le(ED25519_ID), [], list(Sigverify.canonical(2)))),
          'the client builds a wrong signature verification')
        p('the prefunding', z3.Not(ix_is(ix_of(w, o.st, out, 0), le(SYSTEM_ID), [(payer, 1, 1), (pda, 0, 1)],
                                         list(struct.pack('<IQ', 2, lamports)))), 'the client prefunds wrongly')


def c07pda(ctx, ty):
    w = World(ctx.mod)
    ctx.watch(w)
    N, slot = w.arr('node'), w.v('slot', 64)
    st = w.start()
    out = w.ex.new_obj(st, 32, kind='out')
    outs = w.call(st, 'v_pda', [w.buf(st, N, 32), slot, ty, out])
    seeds = z3.Concat(bv(ty, 8), slot, cat([w.ex.sel(N, i) for i in range(32)]))
    key = w.env.pda((8 * 41, seeds), le(PROGRAM_ID))[0]

    def oracle(vals, got):
        want = native.find_address(vals[0] + struct.pack('<Q', vals[1]) + bytes([ty]), PROGRAM_ID)[0]
        return None if got[0] == 'ret' and got[1][1][:32] == want else 'wrong address'
    for o in outs:
        p = client_prover(ctx, w, (N,), 'v_pda', ((N, 32), slot, ty), 32, oracle, o.st.conds())
        bad = BV(w.ex.load(o.st, Ptr(out.obj, 0), 32), 256) != key if o.kind == 'ret' else z3.BoolVal(True)
        p('the address clients derive', bad, 'clients derive another address than the program')


def c22sizes(ctx):
    w = World(ctx.mod)
    ctx.watch(w)
    st = w.start()
    out = w.ex.new_obj(st, 64, kind='out')
    want = (8 + 2 * spec.MAX_SHRED, spec.REPORT + 8 + 2 * spec.MAX_SHRED, spec.REPORT, IX['root1'][0])

    def oracle(vals, got):
        return None if got[0] == 'ret' and struct.unpack('<4Q', got[1][1][:32]) == want and got[1][1][32:64] == PROGRAM_ID else \
            'sizes %s' % (got[0] == 'ret' and struct.unpack('<4Q', got[1][1][:32]),)
    for o in w.call(st, 'v_sizes', [out]):
        p = client_prover(ctx, w, (), 'v_sizes', (), 64, oracle, o.st.conds())
        vals = [BV(w.ex.load(o.st, Ptr(out.obj, 8 * i), 8), 64) for i in range(4)]
        p('advertised sizes', z3.Or(*[v != x for v, x in zip(vals, want)]), 'the advertised sizes are wrong')
        p('program id', BV(w.ex.load(o.st, Ptr(out.obj, 32), 32), 256) != le(PROGRAM_ID), 'the program id is wrong')


def c22(ctx, v1, v2):
    """with the advertised prefunding, whatever the shreds, the report can be stored; and it never exceeds that size"""
    sc = Dup(ctx.mod, v1, v2, **PINNED)
    ctx.watch(sc.w)
    sc.run()
    shred_bound(ctx, sc)
    top = spec.REPORT + 8 + 2 * spec.MAX_SHRED
    V = z3.And(sc.valid(but=('prefunded',)), z3.UGE(sc.pda.lamports, bv((top + 128) * 6960)))
    for o in sc.outs:
        d = [z3.Not(sc.ret(o, 0))] if o.kind == 'ret' else []
        ctx.prove('the advertised prefunding suffices', sc.w, o.st.conds() + [V] + d, [o],
                  'a report cannot be stored with the advertised prefunding')
        if o.kind == 'ret':
            ctx.prove('reports fit the advertised size', sc.w, o.st.conds() + [sc.ret(o, 0), sc.shreds_full(),
                      z3.UGT(sc.pda.now_len(sc.w.ex, o.st), bv(top))], [o], 'a report is larger than the advertised size')


def c22report(ctx):
    """what clients read from a report"""
    w = World(ctx.mod)
    ctx.watch(w)
    D = w.arr('report')
    st = w.start()
    out = w.ex.new_obj(st, 128, kind='out')
    rng = lambda o, n: cat([w.ex.sel(D, o + i) for i in range(n)])

    def oracle(vals, got):
        x = vals[0]
        want = struct.pack('<4Q', *struct.unpack('<Q', x[65:73]), *struct.unpack('<Q', x[105:113]), int(x[113] == 1), x[0]) + \
            x[73:105] + x[1:33] + x[33:65]
        return None if got[0] == 'ret' and got[1][1] == want else 'wrong fields'
    for o in w.call(st, 'v_report', [w.buf(st, D, 114), out]):
        p = client_prover(ctx, w, (D,), 'v_report', ((D, 114),), 128, oracle, o.st.conds())
        if o.kind != 'ret':
            p('no failure', z3.BoolVal(True), 'reading a report fails')
            continue
        for name, off, n, want in (('epoch', 0, 8, rng(65, 8)), ('slot', 8, 8, rng(105, 8)),
                                   ('type', 16, 8, z3.If(rng(113, 1) == 1, bv(1), bv(0))), ('version', 24, 8, ze(rng(0, 1))),
                                   ('node', 32, 32, rng(73, 32)), ('reporter', 64, 32, rng(1, 32)),
                                   ('destination', 96, 32, rng(33, 32))):
            p('reading the ' + name, BV(w.ex.load(o.st, Ptr(out.obj, off), n), 8 * n) != want,
              'clients read the wrong %s from a report' % name)

NAMES = {0: b'invalid', 1: b'duplicate block'}


def c25type(ctx):
    """numbers and names of the violation types"""
    w = World(ctx.mod)
    ctx.watch(w)
    x = w.v('number', 8)
    st = w.start()
    out = w.ex.new_obj(st, 64, kind='out')

    def oracle(vals, got):
        n = 1 if vals[0] == 1 else 0
        return None if got[0] == 'ret' and got[1][1][:16 + len(NAMES[n])] == struct.pack('<QQ', n, len(NAMES[n])) + NAMES[n] \
            else 'number and name %r' % (got[0] == 'ret' and got[1][1],)
    for o in w.call(st, 'v_type', [x, out]):
        p = client_prover(ctx, w, (), 'v_type', (x,), 64, oracle, o.st.conds())
        if o.kind != 'ret':
            p('no failure', z3.BoolVal(True), 'the violation type fails')
            continue
        for n, c in ((1, x == 1), (0, x != 1)):
            want = [(0, 8, n), (8, 8, len(NAMES[n])), (16, len(NAMES[n]), int.from_bytes(NAMES[n], 'little'))]
            for off, k, v in want:
                p('type %d has its number and name' % n, z3.And(c, BV(w.ex.load(o.st, Ptr(out.obj, off), k), 8 * k) != v),
                  'a violation type has the wrong number or name')


def c25parse(ctx):
    w = World(ctx.mod)
    ctx.watch(w)
    ctx.bound('names of up to 40 bytes')
    D, n = w.arr('name'), w.v('len', 64)
    w.pre.append(z3.ULE(n, 40))
    st = w.start()
    d = w.buf(st, D, n)
    out = w.ex.new_obj(st, 8, kind='out')

    def oracle(vals, got):
        want = {v: k for k, v in NAMES.items()}.get(vals[0], 256)
        return None if got[0] == 'ret' and struct.unpack('<Q', got[1][1][:8])[0] == want else 'read as %r' % (got[1],)
    for o in w.call(st, 'v_type_parse', [d, n, out]):
        p = client_prover(ctx, w, (D,), 'v_type_parse', ((D, n), n), 8, oracle, o.st.conds())
        if o.kind != 'ret':
            p('no failure', z3.BoolVal(True), 'reading the name of a violation type fails')
            continue
        r = BV(w.ex.load(o.st, Ptr(out.obj, 0), 8), 64)
        is_ = {k: z3.And(n == len(v), *[w.ex.sel(D, i) == b for i, b in enumerate(v)]) for k, v in NAMES.items()}
        for k, c in is_.items():
            p('the name of type %d is read' % k, z3.And(c, r != k), 'the name of a violation type is misread')
        p('other names are refused', z3.And(*[z3.Not(c) for c in is_.values()], r != 256), 'an unknown name is read as a violation type')


def c25error(ctx):
    w = World(ctx.mod)
    ctx.watch(w)
    i = w.v('error', 64)
    w.pre.append(z3.ULT(i, 25))
    st = w.start()
    out = w.ex.new_obj(st, 8, kind='out')

    def oracle(vals, got):
        return None if got[0] == 'ret' and struct.unpack('<Q', got[1][1][:8])[0] == (vals[0] or 1 << 32) else 'code %r' % (got[1],)
    for o in w.call(st, 'v_error', [i, out]):
        p = client_prover(ctx, w, (), 'v_error', (i,), 8, oracle, o.st.conds())
        if o.kind != 'ret':
            p('no failure', z3.BoolVal(True), 'an error has no code')
            continue
        p('every error has its code', BV(w.ex.load(o.st, Ptr(out.obj, 0), 8), 64) != z3.If(i == 0, bv(1 << 32), i),
          'an error is reported with another code')


PROPS = {
    'C01': Prop(lambda tier: vcases(c01, pairs(tier)) + envs(c01, tier, curs=(2,), near=None, replay=False, **WIDE), [A_HASH, A_PDA, A_LEN, A_ENV]),
    'C02': Prop(lambda tier: vcases(c02, pairs(tier)) + envs(c02, tier, near=None, **WIDE), [A_HASH, A_PDA, A_LEN, A_ENV]),
    'C03': Prop(lambda tier: vcases(c03, pairs(tier, FEW_DEPTHS)), [A_HASH, A_PDA, A_LEN, A_PIN]),
    'C04': Prop(lambda tier: vcases(c04, pairs(tier, FEW_DEPTHS)), [A_HASH, A_INJ, A_PDA, A_LEN, A_PIN]),
    'C19': Prop(lambda tier: vcases(c19, pairs(tier)), [A_HASH, A_PDA, A_LEN, A_PIN]),
    'C23': Prop(lambda tier: vcases(c23, pairs(tier, FEW_DEPTHS)), [A_HASH, A_PDA, A_LEN, A_PIN]),
    'C05': Prop(lambda tier: envs(c05, tier, near=None) + c05near(), [A_HASH, A_PDA, A_LEN]),
    'C06': Prop(lambda tier: envs(c06env, tier, curs=(0, 1, 2)) + vcases(c06, pairs(tier)), [A_HASH, A_PDA, A_LEN, A_PIN]),
    'C07': Prop(lambda tier: envs(c07, tier) + [('client, type %d' % t, c07pda, dict(ty=t)) for t in (0, 1)], [A_HASH, A_PDA, A_LEN]),
    'C08': Prop(lambda tier: envs(c08, tier, curs=(2,)), [A_HASH, A_PDA, A_LEN]),
    'C09': Prop(lambda tier: envs(c09, tier, curs=(2,)), [A_HASH, A_PDA, A_LEN]),
    'C10': Prop(lambda tier: envs(c10, tier, curs=(2,)), [A_HASH, A_PDA, A_LEN]),
    'C11': Prop(lambda tier: envs(c11, tier, curs=(2,)), [A_HASH, A_PDA, A_LEN]),
    'C12': Prop(lambda tier: [('close', c12, {})], [A_LEN]),
    'C13': Prop(lambda tier: [('close', c13, {}), ('into itself', c13dup, {})], [A_LEN]),
    'C14': Prop(lambda tier: [('near', c14, dict(v1=0x80, v2=0x80, **dict(PINNED, **NEAR))), ('close-submit', c14, dict(v1=0x80, v2=0x80))], [A_HASH, A_PDA, A_LEN]),
    'C15': Prop(lambda tier: envs(c15, tier, curs=(2,), near=dict(PINNED, pin_keys=False)) + [('submit %d accounts' % n, c15n, dict(n=n)) for n in range(4)] +
                [('close %d accounts' % n, c15c, dict(n=n)) for n in range(2)], [A_HASH, A_PDA, A_LEN]),
    'C16': Prop(lambda tier: [('%d bytes' % n, c16, dict(PINNED, **dict(NEAR, ixlen=n))) for n in (0, 1, 304, 306, 400)] +
                [('any data', c16, {})], [A_HASH, A_PDA, A_LEN]),
    'C18': Prop(lambda tier: [('first', c18, dict(v1=None, v2=0x81)), ('second', c18, dict(v1=0x81, v2=None)),
                              ('first, code', c18, dict(v1=None, v2=0x41)), ('second, code', c18, dict(v1=0x41, v2=None)),
                              ('both', c18, dict(v1=None, v2=None))], [A_HASH, A_PDA, A_LEN, A_PIN]),
    'C20': Prop(lambda tier: envs(c20, tier, curs=(0, 1, 2)) + vcases(c20v, pairs(tier)) +
                [('account %d is account %d' % (i, j), c20, dict(v1=0x80, v2=0x80, dup={i: j})) for i, j in ((1, 0), (3, 0), (3, 1))] +
                [('close', c20c, {}), ('close into itself', c20c, dict(dup={1: 0}))] +
                [('%d accounts' % n, c20n, dict(n=n)) for n in range(4)], [A_HASH, A_PDA, A_LEN], 'checked'),
    'C17': Prop(lambda tier: [('unpack', c17unpack, {}), ('pack', c17pack, {})], []),
    'C25': Prop(lambda tier: [('types', c25type, {}), ('names', c25parse, {}), ('errors', c25error, {})], []),
    'C21': Prop(lambda tier: [('close', c21close, {}), ('submit', c21dup, {}), ('three, reporter pays', c21dup, dict(full=True)),
                              ('three, funder pays', c21dup, dict(full=True, funder=True))], [A_PDA]),
    'C22': Prop(lambda tier: [('sizes', c22sizes, {}), ('report', c22report, {})] +
                vcases(c22, [(f, f) for f in FAMILIES] + [(0x60, 0x90)] if tier == 'quick' else pairs(tier)),
                [A_HASH, A_PDA, A_LEN, A_PIN]),
}
