"""Parser for the textual LLVM IR rustc emits (LLVM 19), functions parsed lazily.

Only what is needed to execute integer/pointer code symbolically: types,
constants, and the instructions of function bodies.  Metadata, attributes and
fast-math flags are skipped.  Anything unknown raises IRError, which the checks
turn into an error exit (never into a verdict).
"""
import re


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
# ('i', n) | 'ptr' | 'void' | 'double' | 'float' | ('arr', n, t) | ('st', (t..), packed)
# | ('vec', n, t) | 'label' | 'metadata'
PTR = 'ptr'


def is_int(t):
    return type(t) is tuple and t[0] == 'i'


def align_of(t):
    if is_int(t):
        n = (t[1] + 7) // 8
        a = 1
        while a < n:
            a *= 2
        return min(a, 16)
    if t == PTR or t == 'double':
        return 8
    if t == 'float':
        return 4
    if t[0] == 'arr':
        return align_of(t[2])
    if t[0] == 'vec':
        return size_of(t)
    if t[0] == 'st':
        if t[2] or not t[1]:
            return 1
        return max(align_of(x) for x in t[1])
    raise IRError('align_of %r' % (t,))


_sizes = {}


def size_of(t):
    r = _sizes.get(t)
    if r is None:
        r = _sizes[t] = _size_of(t)
    return r


def _size_of(t):
    if is_int(t):
        n = (t[1] + 7) // 8
        a = align_of(t)
        return (n + a - 1) // a * a
    if t == PTR or t == 'double':
        return 8
    if t == 'float':
        return 4
    if t[0] == 'arr':
        return t[1] * size_of(t[2])
    if t[0] == 'vec':
        return t[1] * ((bits_of(t[2]) + 7) // 8)
    if t[0] == 'st':
        off = 0
        for x in t[1]:
            if not t[2]:
                a = align_of(x)
                off = (off + a - 1) // a * a
            off += size_of(x)
        a = align_of(t)
        return (off + a - 1) // a * a
    raise IRError('size_of %r' % (t,))


def bits_of(t):
    if is_int(t):
        return t[1]
    return 8 * size_of(t)


def field_offset(t, i):
    if t[0] in ('arr', 'vec'):
        return i * size_of(t[2])
    off = 0
    for k, x in enumerate(t[1]):
        if not t[2]:
            a = align_of(x)
            off = (off + a - 1) // a * a
        if k == i:
            return off
        off += size_of(x)
    raise IRError('field')


# ---------------------------------------------------------------- tokens
_tok = re.compile(r'''
    \s+ | (?P<str>c?"(?:[^"])*") | (?P<loc>%(?:"[^"]*"|[-\w.$]+)) | (?P<glob>@(?:"[^"]*"|[-\w.$]+))
  | (?P<meta>!(?:"[^"]*"|[\w.]*)) | (?P<attr>\#\d+) | (?P<num>-?\d+(?:\.\d+(?:[eE][-+]?\d+)?)?(?![\w])|0x[0-9A-Fa-f]+)
  | (?P<word>[A-Za-z_][\w.]*) | (?P<p>\.\.\.|<\{|\}>|[-()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        if s[i] == ';':
            break
        m = _tok.match(s, i)
        if not m:
            raise IRError('token at %r' % s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k:
            out.append((k, m.group(k)))
    return out


def unq(name):
    if name.startswith('"'):
        return name[1:-1]
    return name


# ---------------------------------------------------------------- constants / operands
# ('L', name) local | ('C', int) | ('G', name) global | ('null',) | ('undef',) | ('zero',)
# ('agg', [ops with types]) | ('bytes', b) | ('cexpr', op, ...) | ('F', float)
ATTR_WORDS = set('''noundef nonnull noalias nocapture readonly writeonly readnone zeroext signext immarg returned
sret byval inreg writable dead_on_unwind dead_on_return swiftself nofree nest inalloca allocptr allocalign nonnull'''.split())
ATTR_PAREN = {'align', 'dereferenceable', 'dereferenceable_or_null', 'captures', 'range', 'sret', 'byval',
              'elementtype', 'initializes', 'memory', 'nofpclass', 'byref', 'allocsize'}


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else (None, None)

    def next(self):
        t = self.t[self.i]
        self.i += 1
        return t

    def acc(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v and self.t[self.i][0] != 'str':
            self.i += 1
            return True
        return False

    def exp(self, v):
        if not self.acc(v):
            raise IRError('expected %r got %r in %r' % (v, self.peek(), ' '.join(x[1] for x in self.t)[:300]))

    # types
    def type(self):
        k, v = self.next()
        if k == 'word':
            if v == 'ptr':
                if self.peek()[1] == 'addrspace':
                    raise IRError('addrspace')
                return PTR
            if v in ('void', 'double', 'float', 'label', 'metadata'):
                return v
            m = re.fullmatch(r'i(\d+)', v)
            if m:
                return ('i', int(m.group(1)))
            raise IRError('type %r' % v)
        if k == 'loc':
            return self.mod.named_type(unq(v[1:]))
        if v == '[':
            n = int(self.next()[1])
            self.exp('x')
            t = self.type()
            self.exp(']')
            return ('arr', n, t)
        if v == '<':
            n = int(self.next()[1])
            self.exp('x')
            t = self.type()
            self.exp('>')
            return ('vec', n, t)
        if v == '<{':
            ts = []
            if not self.acc('}>'):
                while True:
                    ts.append(self.type())
                    if not self.acc(','):
                        break
                self.exp('}>')
            return ('st', tuple(ts), True)
        if v == '{':
            ts = []
            if not self.acc('}'):
                while True:
                    ts.append(self.type())
                    if not self.acc(','):
                        break
                self.exp('}')
            return ('st', tuple(ts), False)
        raise IRError('type %r' % (v,))

    def skip_parens(self):
        self.exp('(')
        d = 1
        while d:
            v = self.next()[1]
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1

    def attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v == 'align' and self.peek(1)[0] == 'num':
                self.i += 2
            elif k == 'word' and v in ATTR_PAREN and self.peek(1)[1] == '(':
                self.i += 1
                self.skip_parens()
            elif k == 'word' and v in ATTR_WORDS:
                self.i += 1
            elif k == 'str' and not v.startswith('c'):
                self.i += 1
                if self.acc('='):
                    self.i += 1
            elif k == 'attr':
                self.i += 1
            else:
                return

    # operand of a known type
    def operand(self, t):
        k, v = self.next()
        if k == 'loc':
            return ('L', unq(v[1:]))
        if k == 'glob':
            return ('G', unq(v[1:]))
        if k == 'num':
            if t in ('double', 'float'):
                if v.startswith('0x'):
                    import struct
                    return ('F', struct.unpack('>d', bytes.fromhex(v[2:].rjust(16, '0')))[0])
                return ('F', float(v))
            return ('C', int(v, 0) & ((1 << t[1]) - 1))
        if k == 'word':
            if v == 'true':
                return ('C', 1)
            if v == 'false':
                return ('C', 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'splat':
                self.exp('(')
                et = self.type()
                o = self.operand(et)
                self.exp(')')
                return ('agg', [(et, o)] * t[1])
            if v in ('getelementptr', 'inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'add', 'sub', 'xor', 'mul'):
                return self.constexpr(v)
            raise IRError('operand %r' % v)
        if k == 'str' and v.startswith('c"'):
            return ('bytes', unescape(v[2:-1]))
        if v in ('<{', '{', '[', '<'):
            end = {'<{': '}>', '{': '}', '[': ']', '<': '>'}[v]
            xs = []
            if not self.acc(end):
                while True:
                    tt = self.type()
                    xs.append((tt, self.operand(tt)))
                    if not self.acc(','):
                        break
                self.exp(end)
            return ('agg', xs)
        raise IRError('operand %r' % (v,))

    def typed(self):
        t = self.type()
        self.attrs()
        return t, self.operand(t)

    def constexpr(self, op):
        if op == 'getelementptr':
            while self.peek()[0] == 'word' and self.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange'):
                self.i += 1
                if self.peek()[1] == '(' and self.peek(-1)[1] == 'inrange':
                    self.skip_parens()
            self.exp('(')
            t = self.type()
            self.exp(',')
            ops = []
            while True:
                ops.append(self.typed())
                if not self.acc(','):
                    break
            self.exp(')')
            return ('cexpr', 'gep', t, ops)
        while self.peek()[0] == 'word' and self.peek()[1] in ('nuw', 'nsw'):
            self.i += 1
        self.exp('(')
        if op in ('add', 'sub', 'xor', 'mul'):
            a = self.typed()
            self.exp(',')
            b = self.typed()
            self.exp(')')
            return ('cexpr', op, a, b)
        a = self.typed()
        self.exp('to')
        t = self.type()
        self.exp(')')
        return ('cexpr', op, a, t)


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode('utf-8')
            i += 1
    return bytes(out)


FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'inbounds', 'nusw', 'fast', 'nnan', 'ninf', 'nsz', 'arcp',
         'contract', 'afn', 'reassoc', 'samesign', 'inrange'}
BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv'}
CASTS = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'uitofp', 'sitofp', 'fptoui', 'fptosi',
         'fpext', 'fptrunc'}


class Inst:
    __slots__ = ('op', 'dst', 'ty', 'a', 'text', 'uses')

    def __init__(self, op, dst, ty, a, text):
        self.op, self.dst, self.ty, self.a, self.text = op, dst, ty, a, text
        self.uses = None


class Block:
    __slots__ = ('name', 'insts', 'phis', 'succs', 'preds')

    def __init__(self, name):
        self.name = name
        self.insts = []
        self.phis = []
        self.succs = []
        self.preds = []


class Function:
    def __init__(self, name, params, ret, blocks, order, attrs):
        self.name, self.params, self.ret = name, params, ret
        self.blocks, self.order, self.attrs = blocks, order, attrs
        self.noreturn = False


class Module:
    def __init__(self, path):
        self.types = {}
        self._tyraw = {}
        self.globals = {}
        self._globraw = {}
        self.fraw = {}
        self.decls = {}
        self.attrs = {}
        self.funcs = {}
        self.aliases = {}
        cur = None
        with open(path, encoding='utf-8') as f:
            for l in f:
                if cur is not None:
                    cur.append(l)
                    if l.startswith('}'):
                        cur = None
                    continue
                c = l[:1]
                if c == 'd':
                    if l.startswith('define '):
                        name = self._fname(l)
                        cur = self.fraw[name] = [l]
                    elif l.startswith('declare '):
                        self.decls[self._fname(l)] = l
                elif c == '@':
                    m = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)', l)
                    self._globraw[unq(m.group(1))] = m.group(2)
                elif c == '%':
                    m = re.match(r'%("[^"]*"|[-\w.$]+) = type (.*)', l)
                    self._tyraw[unq(m.group(1))] = m.group(2)
                elif l.startswith('attributes #'):
                    m = re.match(r'attributes (#\d+) = \{(.*)\}', l)
                    self.attrs[m.group(1)] = m.group(2)

    @staticmethod
    def _fname(l):
        m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
        return unq(m.group(1))

    def named_type(self, n):
        t = self.types.get(n)
        if t is None:
            t = self.types[n] = P(tokenize(self._tyraw[n]), self).type()
        return t

    def is_noreturn(self, name):
        """declared or defined noreturn"""
        l = self.decls.get(name) or (self.fraw[name][0] if name in self.fraw else '')
        for a in re.findall(r'#\d+', l.rsplit(')', 1)[-1]):
            if 'noreturn' in self.attrs.get(a, '').split():
                return True
        return False

    def glob(self, n):
        """(type, initializer operand or None, is_constant)"""
        g = self.globals.get(n)
        if g is None:
            raw = self._globraw[n]
            toks = tokenize(raw)
            p = P(toks, self)
            const = False
            while True:
                k, v = p.peek()
                if v in ('global', 'constant'):
                    const = v == 'constant'
                    p.i += 1
                    break
                if v == 'alias':
                    p.i += 1
                    p.type()
                    p.exp(',')
                    t, o = p.typed()
                    g = self.globals[n] = ('alias', o, True)
                    return g
                if v == 'thread_local' or v == 'unnamed_addr' or k == 'word':
                    p.i += 1
                    if p.peek()[1] == '(':
                        p.skip_parens()
                    continue
                raise IRError('global %s: %r' % (n, raw[:80]))
            t = p.type()
            init = None
            if p.peek()[0] is not None and p.peek()[1] != ',':
                init = p.operand(t)
            g = self.globals[n] = (t, init, const)
        return g

    def func(self, name):
        f = self.funcs.get(name)
        if f is None:
            if name not in self.fraw:
                return None
            f = self.funcs[name] = parse_function(name, self.fraw[name], self)
        return f


def _callee_head(p):
    """skip cconv / ret attrs before a type"""
    while True:
        k, v = p.peek()
        if k == 'word' and v in ('fastcc', 'coldcc', 'ccc', 'cc', 'preserve_mostcc', 'tailcc') or \
                k == 'word' and v in FLAGS or k == 'word' and v in (
                'internal', 'private', 'external', 'hidden', 'dso_local', 'weak', 'linkonce_odr', 'unnamed_addr',
                'local_unnamed_addr', 'protected', 'weak_odr', 'available_externally', 'default'):
            p.i += 1
            continue
        j = p.i
        p.attrs()
        if p.i == j:
            return


def parse_function(name, lines, mod):
    p = P(tokenize(lines[0].rstrip().rstrip('{')), mod)
    p.exp('define')
    _callee_head(p)
    ret = p.type()
    p.next()
    p.exp('(')
    params = []
    auto = 0
    if not p.acc(')'):
        while True:
            if p.acc('...'):
                break
            t = p.type()
            p.attrs()
            if p.peek()[0] == 'loc':
                nm = unq(p.next()[1][1:])
            else:
                nm = str(auto)
            if nm == str(auto):
                auto += 1
            params.append((nm, t))
            if not p.acc(','):
                break
        p.exp(')')
    blocks, order = {}, []
    cur = Block(str(auto))
    first = True
    i = 1
    n = len(lines)
    while i < n:
        l = lines[i]
        s = l.strip()
        i += 1
        if not s or s[0] == ';':
            continue
        if l[0] == '}':
            break
        if l[0] not in ' \t':
            m = re.match(r'("[^"]*"|[-\w.$]+):', l)
            if not m:
                raise IRError('label %r' % l)
            if first and not cur.insts and not cur.phis:
                cur = Block(unq(m.group(1)))
                first = False
                blocks[cur.name] = cur
                order.append(cur.name)
                continue
            cur = Block(unq(m.group(1)))
            blocks[cur.name] = cur
            order.append(cur.name)
            continue
        if first:
            first = False
            blocks[cur.name] = cur
            order.append(cur.name)
        if s.startswith('switch'):
            while not s.rstrip().endswith(']') and ']' not in s.split('[', 1)[-1]:
                s += ' ' + lines[i].strip()
                i += 1
        if s.startswith('invoke') or ' = invoke' in s:
            s += ' ' + lines[i].strip()
            i += 1
        if s.startswith('landingpad') or ' = landingpad' in s:
            while i < n and lines[i].strip().split(' ')[0] in ('catch', 'cleanup', 'filter'):
                s += ' ' + lines[i].strip()
                i += 1
        inst = parse_inst(s, mod)
        if inst.op == 'phi':
            cur.phis.append(inst)
        else:
            cur.insts.append(inst)
    for b in blocks.values():
        t = b.insts[-1]
        if t.op == 'br':
            b.succs = [t.a[1], t.a[2]] if len(t.a) == 3 else [t.a[0]]
        elif t.op == 'switch':
            b.succs = [t.a[1]] + [x for _, x in t.a[2]]
        elif t.op == 'invoke':
            b.succs = [t.a[4], t.a[5]]
        for s in set(b.succs):
            blocks[s].preds.append(b.name)
    return Function(name, params, ret, blocks, order, None)


def parse_inst(s, mod):
    p = P(tokenize(s), mod)
    dst = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        dst = unq(p.next()[1][1:])
        p.i += 1
    k, op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        k, op = p.next()

    def flags():
        while p.peek()[0] == 'word' and p.peek()[1] in FLAGS:
            p.i += 1

    if op in BINOPS:
        flags()
        t = p.type()
        a = p.operand(t)
        p.exp(',')
        b = p.operand(t)
        return Inst(op, dst, t, (a, b), s)
    if op == 'icmp' or op == 'fcmp':
        flags()
        pred = p.next()[1]
        t = p.type()
        a = p.operand(t)
        p.exp(',')
        b = p.operand(t)
        return Inst(op, dst, t, (pred, a, b), s)
    if op in CASTS:
        flags()
        t, a = p.typed()
        p.exp('to')
        return Inst(op, dst, t, (a, p.type()), s)
    if op == 'br':
        if p.acc('label'):
            return Inst(op, None, None, (unq(p.next()[1][1:]),), s)
        t, c = p.typed()
        p.exp(',')
        p.exp('label')
        x = unq(p.next()[1][1:])
        p.exp(',')
        p.exp('label')
        return Inst(op, None, None, (c, x, unq(p.next()[1][1:])), s)
    if op == 'ret':
        t = p.type()
        return Inst(op, None, t, (None if t == 'void' else p.operand(t),), s)
    if op == 'unreachable':
        return Inst(op, None, None, (), s)
    if op == 'load':
        if p.acc('atomic'):
            pass
        p.acc('volatile')
        t = p.type()
        p.exp(',')
        _, a = p.typed()
        return Inst(op, dst, t, (a,), s)
    if op == 'store':
        p.acc('atomic')
        p.acc('volatile')
        t, v = p.typed()
        p.exp(',')
        _, a = p.typed()
        return Inst(op, None, t, (v, a), s)
    if op == 'alloca':
        p.acc('inalloca')
        t = p.type()
        cnt = ('C', 1)
        al = 1
        while p.acc(','):
            if p.acc('align'):
                al = int(p.next()[1])
            elif p.peek()[0] == 'meta':
                break
            else:
                _, cnt = p.typed()
        return Inst(op, dst, t, (cnt, al), s)
    if op == 'getelementptr':
        while p.peek()[0] == 'word' and p.peek()[1] in FLAGS:
            p.i += 1
            if p.peek(-1)[1] == 'inrange':
                p.skip_parens()
        t = p.type()
        ops = []
        while p.acc(','):
            if p.peek()[0] == 'meta':
                break
            ops.append(p.typed())
        return Inst(op, dst, t, (ops,), s)
    if op == 'select':
        flags()
        tc, c = p.typed()
        p.exp(',')
        t, a = p.typed()
        p.exp(',')
        _, b = p.typed()
        return Inst(op, dst, t, (tc, c, a, b), s)
    if op == 'phi':
        flags()
        t = p.type()
        xs = []
        while True:
            p.exp('[')
            v = p.operand(t)
            p.exp(',')
            b = unq(p.next()[1][1:])
            p.exp(']')
            xs.append((b, v))
            if not (p.peek()[1] == ',' and p.peek(1)[1] == '['):
                break
            p.exp(',')
        return Inst(op, dst, t, (xs,), s)
    if op == 'switch':
        t, v = p.typed()
        p.exp(',')
        p.exp('label')
        d = unq(p.next()[1][1:])
        p.exp('[')
        cases = []
        while not p.acc(']'):
            tt, c = p.typed()
            p.exp(',')
            p.exp('label')
            cases.append((c[1], unq(p.next()[1][1:])))
        return Inst(op, None, t, (v, d, cases), s)
    if op in ('call', 'invoke'):
        _callee_head(p)
        t = p.type()
        if p.peek()[1] == '(' and p.peek(1)[1] != ')':
            # explicit function type
            p.skip_parens()
        elif p.peek()[1] == '(':
            p.skip_parens()
        k, v = p.peek()
        if k == 'word' and v == 'asm':
            return Inst('asm', dst, t, (s,), s)
        callee = p.operand(PTR)
        p.exp('(')
        args = []
        if not p.acc(')'):
            while True:
                at = p.type()
                p.attrs()
                if at == 'metadata':
                    args.append((at, None))
                    d = 0
                    while not (d == 0 and p.peek()[1] in (',', ')')):
                        v = p.next()[1]
                        d += (v == '(') - (v == ')')
                else:
                    args.append((at, p.operand(at)))
                if not p.acc(','):
                    break
            p.exp(')')
        if op == 'invoke':
            while p.peek()[1] != 'to':
                p.i += 1
            p.exp('to')
            p.exp('label')
            n = unq(p.next()[1][1:])
            p.exp('unwind')
            p.exp('label')
            u = unq(p.next()[1][1:])
            return Inst(op, dst, t, (callee, args, None, None, n, u), s)
        return Inst(op, dst, t, (callee, args), s)
    if op == 'extractvalue':
        t, a = p.typed()
        idx = []
        while p.acc(','):
            if p.peek()[0] == 'meta':
                break
            idx.append(int(p.next()[1]))
        return Inst(op, dst, t, (a, idx), s)
    if op == 'insertvalue':
        t, a = p.typed()
        p.exp(',')
        tv, v = p.typed()
        idx = []
        while p.acc(','):
            if p.peek()[0] == 'meta':
                break
            idx.append(int(p.next()[1]))
        return Inst(op, dst, t, (a, tv, v, idx), s)
    if op == 'freeze':
        t, a = p.typed()
        return Inst(op, dst, t, (a,), s)
    if op == 'extractelement':
        t, a = p.typed()
        p.exp(',')
        ti, i = p.typed()
        return Inst(op, dst, t, (a, ti, i), s)
    if op == 'insertelement':
        t, a = p.typed()
        p.exp(',')
        tv, v = p.typed()
        p.exp(',')
        ti, i = p.typed()
        return Inst(op, dst, t, (a, tv, v, ti, i), s)
    if op == 'shufflevector':
        t, a = p.typed()
        p.exp(',')
        _, b = p.typed()
        p.exp(',')
        tm, m = p.typed()
        return Inst(op, dst, t, (a, b, tm, m), s)
    # not executed in our code (std panic machinery); keep as opaque
    return Inst('opaque', dst, None, (op,), s)


# ---------------------------------------------------------------- analyses
def op_locals(o, acc):
    if o is None:
        return
    k = o[0]
    if k == 'L':
        acc.add(o[1])
    elif k == 'agg':
        for _, x in o[1]:
            op_locals(x, acc)
    elif k == 'cexpr':
        pass


def inst_uses(I):
    if I.uses is not None:
        return I.uses
    acc = set()
    a = I.a
    op = I.op
    if op in BINOPS:
        op_locals(a[0], acc)
        op_locals(a[1], acc)
    elif op in ('icmp', 'fcmp'):
        op_locals(a[1], acc)
        op_locals(a[2], acc)
    elif op in CASTS or op in ('load', 'freeze', 'ret', 'extractvalue'):
        op_locals(a[0], acc)
    elif op == 'br':
        if len(a) == 3:
            op_locals(a[0], acc)
    elif op == 'switch':
        op_locals(a[0], acc)
    elif op == 'store':
        op_locals(a[0], acc)
        op_locals(a[1], acc)
    elif op == 'alloca':
        op_locals(a[0], acc)
    elif op == 'getelementptr':
        for _, x in a[0]:
            op_locals(x, acc)
    elif op == 'select':
        for x in a[1:]:
            op_locals(x, acc)
    elif op in ('call', 'invoke'):
        op_locals(a[0], acc)
        for _, x in a[1]:
            op_locals(x, acc)
    elif op == 'insertvalue':
        op_locals(a[0], acc)
        op_locals(a[2], acc)
    elif op == 'extractelement':
        op_locals(a[0], acc)
        op_locals(a[2], acc)
    elif op == 'insertelement':
        op_locals(a[0], acc)
        op_locals(a[2], acc)
        op_locals(a[4], acc)
    elif op == 'shufflevector':
        op_locals(a[0], acc)
        op_locals(a[1], acc)
    I.uses = acc
    return acc


class Analysis:
    """liveness and a loop-aware total order of the blocks of one function"""

    def __init__(self, f):
        self.f = f
        self._live()
        self._order()

    def _live(self):
        f = self.f
        gen, kill = {}, {}
        for n, b in f.blocks.items():
            g, k = set(), set(x.dst for x in b.phis)
            for I in b.insts:
                g |= inst_uses(I) - k
                if I.dst:
                    k.add(I.dst)
            gen[n], kill[n] = g, k
        livein = {n: set() for n in f.blocks}
        # live-in at block start *after* phis are assigned: includes phi dsts
        changed = True
        liveout = {n: set() for n in f.blocks}
        phiuse = {}
        for n, b in f.blocks.items():
            for ph in b.phis:
                for src, o in ph.a[0]:
                    op_locals(o, phiuse.setdefault((src, n), set()))
        while changed:
            changed = False
            for n in reversed(f.order):
                b = f.blocks[n]
                out = set()
                for s in b.succs:
                    out |= livein[s] - set(x.dst for x in f.blocks[s].phis)
                    out |= phiuse.get((n, s), set())
                inn = gen[n] | (out - (kill[n] - set(x.dst for x in b.phis)))
                # phi dsts live if used: keep in livein when used in gen/out
                ph = set(x.dst for x in b.phis)
                used = set()
                for I in b.insts:
                    used |= inst_uses(I)
                inn = (inn - ph) | (ph & (used | out))
                if inn != livein[n] or out != liveout[n]:
                    livein[n], liveout[n] = inn, out
                    changed = True
        self.livein, self.liveout = livein, liveout
        self._mid = {}

    def live_at(self, bn, idx):
        """live registers just before instruction idx of block bn"""
        k = (bn, idx)
        r = self._mid.get(k)
        if r is None:
            b = self.f.blocks[bn]
            r = set(self.liveout[bn])
            for I in reversed(b.insts[idx:]):
                if I.dst:
                    r.discard(I.dst)
                r |= inst_uses(I)
            self._mid[k] = r
        return r

    def _order(self):
        f = self.f
        # iterative dominators (small functions)
        entry = f.order[0]
        post, seen = [], set()
        st = [(entry, iter(f.blocks[entry].succs))]
        seen.add(entry)
        while st:
            n, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(f.blocks[s].succs)))
                    break
            else:
                post.append(n)
                st.pop()
        self.path = {}
        self.header_path = {}
        self._rec(set(post), entry, (), set())

    def _sccs(self, nodes, cut):
        """Tarjan over nodes, ignoring edges into `cut`; returns in reverse topological order"""
        f = self.f
        idx, low, on, st, out = {}, {}, set(), [], []
        cnt = [0]
        for r in sorted(nodes):
            if r in idx:
                continue
            work = [(r, None)]
            while work:
                n, it = work[-1]
                if it is None:
                    idx[n] = low[n] = cnt[0]
                    cnt[0] += 1
                    st.append(n)
                    on.add(n)
                    it = iter([s for s in f.blocks[n].succs if s in nodes and s not in cut])
                    work[-1] = (n, it)
                adv = False
                for s in it:
                    if s not in idx:
                        work.append((s, None))
                        adv = True
                        break
                    if s in on:
                        low[n] = min(low[n], idx[s])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[n])
                if low[n] == idx[n]:
                    comp = []
                    while True:
                        x = st.pop()
                        on.discard(x)
                        comp.append(x)
                        if x == n:
                            break
                    out.append(comp)
        return out

    def _rec(self, nodes, entry, prefix, cut):
        f = self.f
        comps = self._sccs(nodes, cut)
        comps.reverse()
        for rank, c in enumerate(comps):
            if len(c) == 1 and (c[0] not in f.blocks[c[0]].succs or c[0] in cut):
                self.path[c[0]] = prefix + (rank,)
            else:
                cs = set(c)
                heads = [x for x in c if x == entry or any(q not in cs for q in f.blocks[x].preds)]
                if len(heads) != 1:
                    # irreducible: no loop-aware order, fall back to treating as loop with first head
                    heads = sorted(heads) or [c[0]]
                h = heads[0]
                # the loop component: (rank, header) then the inner rank
                for x in c:
                    pass
                self._rec(cs, h, prefix + ((rank, h),), cut | {h})


def demangle(n):
    """the path of a mangled Rust name, without its hash"""
    if not n.startswith('_ZN'):
        return n
    i, out = 3, []
    while i < len(n) and n[i].isdigit():
        j = i
        while n[j].isdigit():
            j += 1
        k = int(n[i:j])
        out.append(n[j:j + k])
        i = j + k
    if out and len(out[-1]) == 17 and out[-1][0] == 'h':
        out.pop()
    s = '::'.join(out)
    for a, b in (('$LT$', '<'), ('$GT$', '>'), ('$u20$', ' '), ('$RF$', '&'), ('$C$', ','), ('$BP$', '*'),
                 ('$LP$', '('), ('$RP$', ')'), ('..', '::'), ('$u7b$', '{'), ('$u7d$', '}')):
        s = s.replace(a, b)
    return s
