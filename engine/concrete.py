"""Turns a model of a violated property into concrete inputs in which every hash and
program address is the real one, and compares the executor's prediction with a native run."""
import hashlib
import json
import z3
import native
from symex import (BV, isz, mask, Copy, Fill, UNDEF, Ptr, extract, norm, SolverUnknown)
from env import le, PROGRAM_ID


class CannotConcretise(Exception):
    pass


def evi(m, x):
    if type(x) is int:
        return x
    return m.eval(x, model_completion=True).as_long()


class Tables:
    """the known bytes of every input array under a model"""

    def __init__(self, ex, m):
        self.m = m
        self.t = {}
        for A in ex.arrays:
            t = self.t[A.id] = {}
            for r in A.reads.values():
                t[evi(m, r.off)] = evi(m, r.var)
            for b, c, v in A.pins:
                o = (c + (0 if b is None else evi(m, b))) & mask(64)
                t[o] = v
        # bytes known through a range equality
        changed = True
        while changed:
            changed = False
            for R in ex.range_eqs:
                if not z3.is_true(m.eval(R['E'], model_completion=True)):
                    continue
                n, a, b = evi(m, R['n']), evi(m, R['a']), evi(m, R['b'])
                for X, x, Y, y in ((R['A'], a, R['B'], b), (R['B'], b, R['A'], a)):
                    if Y.const is not None or Y.id not in self.t:
                        continue
                    if X.const is not None:
                        continue
                    for o, v in list(self.t[X.id].items()):
                        d = (o - x) & mask(64)
                        if d < n:
                            p = (y + d) & mask(64)
                            if p not in self.t[Y.id]:
                                self.t[Y.id][p] = v
                                changed = True

    def byte(self, arr, off):
        if arr.const is not None:
            return arr.const
        if arr.view:
            arr, off = arr.resolve(off & mask(64), 1)
        return self.t[arr.id].get(off & mask(64), 0)

    def obj_byte(self, o, off, upto=None):
        m = self.m
        i = (len(o.layers) if upto is None else upto) - 1
        while i >= 0:
            l = o.layers[i]
            if type(l) is dict:
                e = l.get(off)
                if e is not None:
                    return self.entry(e)
            else:
                d = (off - evi(m, l.dst)) & mask(64)
                if d < evi(m, l.n):
                    if type(l) is Fill:
                        return self.entry(l.v)
                    return self.obj_byte(l.src, (evi(m, l.soff) + d) & mask(64))
            i -= 1
        k = o.init[0]
        if k == 'zero' or k == 'undef':
            return 0
        if k == 'bytes':
            return o.init[1][off]
        if k == 'array':
            return self.byte(o.init[1], off)
        if k == 'merge':
            _, c, a, b = o.init
            return self.obj_byte(a if z3.is_true(m.eval(c, model_completion=True)) else b, off)
        raise CannotConcretise(k)

    def entry(self, e):
        if type(e) is int:
            return e
        if e is UNDEF:
            return 0
        v, k, n = e
        if isz(v):
            v = evi(self.m, v)
        if type(v) is not int:
            return 0
        return (v >> (8 * k)) & 255


def range_pins(ex, m, T, t):
    """the message of a hashed range under the model, and the facts that fix it"""
    A, off, n = t.body
    o, k = evi(m, off), evi(m, n)
    msg = bytes(T.byte(A, o + j) for j in range(k))
    new = [off == o, n == k]
    for r in A.reads.values():
        p = evi(m, r.off)
        if (p - o) & mask(64) < k:
            new += [r.off == p, r.var == msg[(p - o) & mask(64)]]
    return msg, new


def pda_pins(m, t):
    sv, pv = evi(m, t['seeds']), evi(m, t['prog'])
    a, b = native.find_address(sv.to_bytes(t['n'] // 8, 'little'), pv.to_bytes(32, 'little'))
    return [t['seeds'] == sv, t['prog'] == pv, t['addr'] == le(a), t['bump'] == b]


def all_at_once(w, m):
    """every hash and address evaluated for real, bottom up, from the inputs of the model"""
    ex, env = w.ex, w.env
    new, sub = [], []
    T = Tables(ex, m)
    for t in env.hterms:
        if t.kind == 'bytes':
            b = z3.substitute(t.body, *sub) if sub else t.body
            v = evi(m, b)
            real = le(hashlib.sha256(t.prefix + v.to_bytes(b.size() // 8, 'little')).digest())
            new.append(t.body == v)
        else:
            msg, more = range_pins(ex, m, T, t)
            new += more
            real = le(hashlib.sha256(t.prefix + msg).digest())
        new.append(t.out == real)
        sub.append((t.out, z3.BitVecVal(real, 256)))
    for t in env.pdas:
        new += pda_pins(m, t)
    return new


def concretise(w, conds, rounds=6, hints=False):
    """a model of conds in which hashes and program addresses are the real ones"""
    ex, env = w.ex, w.env
    pins = []
    m = None
    if hints:
        for h in (w.hints + w.strong_hints, w.hints):
            if h is w.hints and not w.strong_hints:
                break
            # the inputs first, then every hash of them at once
            r, m = ex.decide(conds + h, hashes=False)
            if r != 'sat':
                continue
            new = [b == evi(m, b) for _, b in ex.bases.values()]
            try:
                r, m = ex.decide(conds + h + new + all_at_once(w, m))
                if r == 'sat' and not recheck(w, m):
                    return m
            except SolverUnknown:
                pass
        for h in (w.hints + w.strong_hints, w.hints):
            if h is w.hints and not w.strong_hints:
                break
            r, m = ex.decide(conds + h)
            if r == 'sat':
                pins = list(h)
                break
            m = None
    if m is None:
        r, m = ex.decide(conds)
        if r != 'sat':
            return None
    if hints:
        # offsets first: all address arithmetic becomes concrete
        new = [b == evi(m, b) for _, b in ex.bases.values()]
        r, m2 = ex.decide(conds + pins + new)
        if r != 'sat':
            raise CannotConcretise('offsets')
        m = m2
        pins += new
        for _ in range(3):
            r, m2 = ex.decide(conds + pins + all_at_once(w, m))
            if r != 'sat':
                break
            if not recheck(w, m2):
                return m2
            m = m2
    # a level at a time: the hashes of a level are known once those below are
    done = set()
    level = levels(env)
    bad = set()
    for _ in range(rounds * 200):
        todo = [(level[i], 'h', i, t) for i, t in enumerate(env.hterms) if ('h', i) not in done]
        if todo:
            k = min(x[0] for x in todo)
            todo = [x for x in todo if x[0] == k]
            if k in bad:
                todo = todo[:1]
        else:
            todo = [(-1, 'p', i, t) for i, t in enumerate(env.pdas) if ('p', i) not in done][:1]
        if not todo:
            again = recheck(w, m)
            if not again:
                return m
            for k in again:
                done.discard(k)
            continue
        new = []
        for k, kind, i, t in todo:
            if kind == 'p':
                new += pda_pins(m, t)
            elif t.kind == 'bytes':
                n = t.body.size() // 8
                b = evi(m, t.body)
                real = le(hashlib.sha256(t.prefix + b.to_bytes(n, 'little')).digest())
                new += [t.body == b, t.out == real]
            else:
                msg, more = range_pins(ex, m, Tables(ex, m), t)
                new += more + [t.out == le(hashlib.sha256(t.prefix + msg).digest())]
        r, m2 = ex.decide(conds + pins + new)
        if r != 'sat':
            if len(todo) > 1:
                bad.add(todo[0][0])
                continue
            k, kind, i, t = todo[0]
            raise CannotConcretise('no model with the real %s of step %d' % ('hash' if kind == 'h' else 'address', i))
        m = m2
        pins += new
        done |= {x[1:3] for x in todo}
    raise CannotConcretise('no fixpoint')


def levels(env):
    """for each hash, how many hashes deep its message is"""
    at = {t.out.get_id(): i for i, t in enumerate(env.hterms)}
    memo = {}

    def uses(x):
        out, seen, stack = set(), set(), [x]
        while stack:
            e = stack.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if e.get_id() in at:
                out.add(at[e.get_id()])
            else:
                stack += e.children()
        return out

    def level(i):
        if i not in memo:
            t = env.hterms[i]
            memo[i] = 0
            xs = [t.body] if t.kind == 'bytes' else [x for x in t.body[1:] if isz(x)]
            memo[i] = 1 + max([-1] + [level(j) for x in xs for j in uses(x)])
        return memo[i]
    return [level(i) for i in range(len(env.hterms))]


def recheck(w, m):
    bad = []
    T = Tables(w.ex, m)
    for i, t in enumerate(w.env.hterms):
        if t.kind == 'bytes':
            msg = t.prefix + evi(m, t.body).to_bytes(t.body.size() // 8, 'little')
        else:
            A, off, n = t.body
            o, k = evi(m, off), evi(m, n)
            msg = t.prefix + bytes(T.byte(A, o + j) for j in range(k))
        if le(hashlib.sha256(msg).digest()) != evi(m, t.out):
            bad.append(('h', i))
    for i, t in enumerate(w.env.pdas):
        sv, pv = evi(m, t['seeds']), evi(m, t['prog'])
        a, b = native.find_address(sv.to_bytes(t['n'] // 8, 'little'), pv.to_bytes(32, 'little'))
        if (le(a), b) != (evi(m, t['addr']), evi(m, t['bump'])):
            bad.append(('p', i))
    return bad


def inputs(w, m, call):
    """concrete inputs of one call"""
    T = Tables(w.ex, m)
    init = call['init']
    accts = []
    for i, a in enumerate(call['accounts']):
        if i in call['dup']:
            accts.append(dict(dup=call['dup'][i], data=b''))
            continue
        h, d = (init.mem[x] for x in call['at'][i])
        hb = bytes(T.obj_byte(h, k) for k in range(88))
        n = le(hb[80:88])
        data = bytes(T.obj_byte(d, k) for k in range(n))
        accts.append(dict(name=a.name, signer=hb[1], writable=hb[2], exec=hb[3], key=hb[8:40], owner=hb[40:72],
                          lamports=le(hb[72:80]), data=data))
    n = evi(m, call['dlen'])
    data = bytes(T.byte(call['data'], k) for k in range(n))
    clock = {k: evi(m, v) for k, v in call['clock'].items()}
    sched = {k: evi(m, v) for k, v in w.env.schedule.items()}
    return dict(accounts=accts, data=data, clock=clock, schedule=sched)


def predicted(w, m, call, o):
    """(kind, ret, accounts after) as the executor predicts"""
    T = Tables(w.ex, m)
    post = None
    ret = None
    if o.kind == 'ret':
        ret = evi(m, o.value)
        post = []
        seen = []
        for i, a in enumerate(call['accounts']):
            if i in call['dup']:
                post.append(post[call['dup'][i]])
                continue
            h, d = (w.ex.obj(o.st, x) for x in call['at'][i])
            hb = bytes(T.obj_byte(h, k) for k in range(88))
            n = le(hb[80:88])
            post.append(dict(owner=hb[40:72], lamports=le(hb[72:80]),
                             data=bytes(T.obj_byte(d, k) for k in range(n))))
    return o.kind, ret, post


def compare(pred, got):
    """None if the native run did what the executor predicted"""
    if pred[0] != got[0]:
        return 'predicted %s, native run: %s %s' % (pred[0], got[0], got[1])
    if pred[0] != 'ret':
        return None
    if pred[1] != got[1]:
        return 'predicted result %#x, native result %#x' % (pred[1], got[1])
    for i, (p, g) in enumerate(zip(pred[2], got[2])):
        for k in ('owner', 'lamports', 'data'):
            if p[k] != g[k]:
                return 'account %d: predicted %s differs from the native run' % (i, k)
    return None


def run_native(so, inp, program_id=PROGRAM_ID):
    return native.process(so, [inp], program_id)[0]


def to_json(inp):
    def f(x):
        if isinstance(x, bytes):
            return {'hex': x.hex()}
        if isinstance(x, dict):
            return {k: f(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [f(v) for v in x]
        return x
    return f(inp)


def from_json(x):
    if isinstance(x, dict):
        if set(x) == {'hex'}:
            return bytes.fromhex(x['hex'])
        return {k: from_json(v) for k, v in x.items()}
    if isinstance(x, list):
        return [from_json(v) for v in x]
    return x
