"""Lazy parser for the textual LLVM IR that rustc emits."""
import re

TOK = re.compile(
    r'\s*(c"(?:[^"\\]|\\.)*"|[%@!]"(?:[^"\\]|\\.)*"|%[-\w.$]+|@[-\w.$]+'
    r'|![\w.]+|"(?:[^"\\]|\\.)*"|-?\d+(?:\.\d+e[+-]?\d+)?|[A-Za-z_][\w.]*'
    r'|\.\.\.|#\d+|[\[\]{}()<>,=*:|!])')


def tokens(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise SyntaxError('cannot tokenize: %r' % s[i:i + 60])
        out.append(m.group(1))
        i = m.end()
    return out


# types: ('i', n) | ('ptr',) | ('void',) | ('struct', (..), packed) |
#        ('array', n, t) | ('vec', n, t) | ('f', n)

class P:
    """token cursor"""

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        r = self.next()
        if r != x:
            raise SyntaxError('expected %r got %r in %s'
                              % (x, r, ' '.join(self.t)[:300]))

    def skip_parens(self):
        d = 0
        while True:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1
                if d == 0:
                    return

    def at_type(self):
        x = self.peek()
        return x is not None and (
            re.fullmatch(r'i\d+', x) is not None
            or x in ('ptr', 'void', '{', '[', '<', 'float', 'double', 'half',
                     'label', 'metadata'))

    def type(self):
        x = self.next()
        if re.fullmatch(r'i\d+', x):
            return ('i', int(x[1:]))
        if x == 'ptr':
            return ('ptr',)
        if x in ('void', 'label', 'metadata'):
            return (x,)
        if x in ('float', 'double', 'half'):
            return ('f', {'float': 32, 'double': 64, 'half': 16}[x])
        if x == '{':
            fs = []
            while not self.eat('}'):
                fs.append(self.type())
                self.eat(',')
            return ('struct', tuple(fs), False)
        if x == '[':
            n = int(self.next())
            self.expect('x')
            t = self.type()
            self.expect(']')
            return ('array', n, t)
        if x == '<':
            if self.peek() == '{':
                t = self.type()
                self.expect('>')
                return ('struct', t[1], True)
            n = int(self.next())
            self.expect('x')
            t = self.type()
            self.expect('>')
            return ('vec', n, t)
        raise SyntaxError('type? %r in %s' % (x, ' '.join(self.t)[:300]))

    VALS = {'true', 'false', 'null', 'undef', 'poison', 'zeroinitializer',
            'getelementptr', 'inttoptr', 'ptrtoint', 'none'}

    def skip_attrs(self):
        while True:
            x = self.peek()
            if x is None:
                return
            if x == 'align' and self.peek(1) != '(':
                self.i += 2
                continue
            if re.fullmatch(r'[A-Za-z_][\w.]*', x) and x not in self.VALS \
                    and not (x.startswith('c"')):
                if self.at_type():
                    return
                self.i += 1
                if self.peek() == '(':
                    self.skip_parens()
                continue
            if x.startswith('"') or x.startswith('#'):
                self.i += 1
                if self.peek() == '=':
                    self.i += 2
                continue
            return

    def value(self, ty):
        """operand of known type"""
        x = self.next()
        if x[0] == '%':
            return ('reg', x)
        if x[0] == '@':
            return ('glob', x)
        if x == 'true':
            return ('int', 1)
        if x == 'false':
            return ('int', 0)
        if re.fullmatch(r'-?\d+', x):
            return ('int', int(x))
        if x in ('null', 'zeroinitializer'):
            return ('zero',)
        if x in ('undef', 'poison'):
            return ('undef',)
        if x == 'inttoptr' or x == 'ptrtoint':
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect('to')
            self.type()
            self.expect(')')
            return (x, t, v)
        if x == 'getelementptr':
            while self.peek() != '(':
                self.next()
                if self.peek() == '(' and self.t[self.i - 1] == 'inrange':
                    self.skip_parens()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            t = self.type()
            b = self.value(t)
            idx = []
            while self.eat(','):
                t = self.type()
                idx.append((t, self.value(t)))
            self.expect(')')
            return ('gep', bt, b, tuple(idx))
        if x == '{' or x == '[':
            close = '}' if x == '{' else ']'
            vs = []
            while not self.eat(close):
                t = self.type()
                vs.append((t, self.value(t)))
                self.eat(',')
            return ('agg', tuple(vs))
        if x == '<':
            if self.peek() == '{':
                v = self.value(ty)
                self.expect('>')
                return v
            vs = []
            while not self.eat('>'):
                t = self.type()
                vs.append((t, self.value(t)))
                self.eat(',')
            return ('agg', tuple(vs))
        if x.startswith('c"'):
            return ('bytes', cstr(x[2:-1]))
        if ty and ty[0] == 'f':
            return ('fp', x)
        raise SyntaxError('value? %r in %s' % (x, ' '.join(self.t)[:300]))

    def tv(self):
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)


def cstr(s):
    out = bytearray()
    i = 0
    b = s.encode('latin-1')
    while i < len(b):
        c = b[i]
        if c == 0x5c:
            if b[i + 1] == 0x5c:
                out.append(0x5c)
                i += 2
            else:
                out.append(int(b[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(c)
            i += 1
    return bytes(out)


def align_of(t):
    k = t[0]
    if k == 'i':
        n = (t[1] + 7) // 8
        p = 1
        while p < n:
            p *= 2
        return min(p, 16)
    if k == 'ptr':
        return 8
    if k == 'f':
        return t[1] // 8
    if k == 'array' or k == 'vec':
        return align_of(t[2])
    if k == 'struct':
        if t[2]:
            return 1
        return max([align_of(x) for x in t[1]] or [1])
    raise TypeError(t)


def size_of(t):
    k = t[0]
    if k == 'i':
        n = (t[1] + 7) // 8
        a = align_of(t)
        return (n + a - 1) // a * a
    if k == 'ptr':
        return 8
    if k == 'f':
        return t[1] // 8
    if k in ('array', 'vec'):
        return t[1] * size_of(t[2])
    if k == 'struct':
        return field_off(t, len(t[1]))
    raise TypeError(t)


def field_off(t, i):
    o = 0
    al = 1
    for j, f in enumerate(t[1]):
        a = 1 if t[2] else align_of(f)
        al = max(al, a)
        o = (o + a - 1) // a * a
        if j == i:
            return o
        o += size_of(f)
    return (o + al - 1) // al * al


class Inst:
    __slots__ = ('op', 'dst', 'ty', 'args', 'x', 'text')

    def __init__(self, op, dst, ty, args, x=None, text=''):
        self.op, self.dst, self.ty, self.args, self.x = op, dst, ty, args, x
        self.text = text


class Func:
    def __init__(self, name, lines, mod):
        self.name = name
        self.lines = lines
        self.mod = mod
        self.blocks = None

    def parse(self):
        if self.blocks is not None:
            return self
        head = self.lines[0]
        p = P(tokens(head[:head.rindex('{')].split(' !')[0]
                     if False else re.sub(r'(![\w.]+ ?)+\{$|\{$', '', head)))
        p.expect('define')
        while not p.at_type():
            p.skip_attrs()
            if p.at_type():
                break
            p.next()
        self.ret = p.type()
        p.skip_attrs()
        nm = p.next()
        assert nm[0] == '@', nm
        p.expect('(')
        self.params = []
        while not p.eat(')'):
            t = p.type()
            p.skip_attrs()
            r = p.next()
            assert r[0] == '%', (r, head[:300])
            self.params.append((t, r))
            p.eat(',')
        # blocks
        self.blocks = {}
        self.order = []
        cur = None
        body = self.lines[1:-1]
        i = 0
        while i < len(body):
            ln = body[i]
            i += 1
            s = ln.strip()
            if not s or s[0] == ';' or s.startswith('#dbg'):
                continue
            if not ln.startswith(' '):
                m = re.match(r'("(?:[^"])*"|[-\w.$]+):', ln)
                cur = '%' + m.group(1)
                self.blocks[cur] = []
                self.order.append(cur)
                continue
            if cur is None:
                n = sum(1 for t, r in self.params
                        if re.fullmatch(r'%\d+', r))
                cur = '%' + str(n)
                self.blocks[cur] = []
                self.order.append(cur)
            if s.startswith('switch') and s.endswith('['):
                while True:
                    nx = body[i].strip()
                    i += 1
                    s += ' ' + nx
                    if nx.startswith(']'):
                        break
            self.blocks[cur].append(parse_inst(s))
        self.entry = self.order[0]
        self._cfg()
        return self

    def _cfg(self):
        self.succ = {}
        for b, ins in self.blocks.items():
            t = ins[-1]
            if t.op == 'br':
                s = list(dict.fromkeys(t.x))
            elif t.op == 'switch':
                s = list(dict.fromkeys([t.x[0]] + [l for _, l in t.x[1]]))
            elif t.op == 'invoke':
                s = [t.x[2]]
            else:
                s = []
            self.succ[b] = s
        self.pred = {b: [] for b in self.blocks}
        for b, ss in self.succ.items():
            for s in ss:
                self.pred[s].append(b)
        self.wto = wto(self.entry, self.succ)
        self._live()

    def _live(self):
        use, deff, phiuse = {}, {}, {}
        for b, ins in self.blocks.items():
            u, d = set(), set()
            for x in ins:
                if x.op == 'phi':
                    for v, l in x.args:
                        for r in regs(v):
                            phiuse.setdefault(l, set()).add(r)
                else:
                    for r in inst_regs(x):
                        if r not in d:
                            u.add(r)
                if x.dst:
                    d.add(x.dst)
            use[b], deff[b] = u, d
        livein = {b: set() for b in self.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.order):
                o = set(phiuse.get(b, ()))
                for s in self.succ[b]:
                    o |= livein[s]
                n = use[b] | (o - deff[b])
                if n != livein[b]:
                    livein[b] = n
                    ch = True
        # phi destinations are defined in the block, so not live-in
        self.livein = livein


def regs(v):
    k = v[0]
    if k == 'reg':
        yield v[1]
    elif k == 'gep':
        yield from regs(v[2])
        for t, x in v[3]:
            yield from regs(x)
    elif k in ('inttoptr', 'ptrtoint'):
        yield from regs(v[2])
    elif k == 'agg':
        for t, x in v[1]:
            yield from regs(x)


def inst_regs(x):
    for a in x.args:
        yield from regs(a)
    if x.op in ('call', 'invoke'):
        c = x.x[0]
        if c[0] == '%':
            yield c


def strip_meta(s):
    # drop trailing ", !name !n" metadata
    return re.sub(r'(, ![\w.]+ (![\w.]+|!\{[^}]*\}|!\w+\([^)]*\)))+$', '', s)


FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'inbounds', 'nusw', 'nneg',
         'samesign', 'volatile', 'fast', 'nnan', 'ninf', 'nsz', 'arcp',
         'contract', 'afn', 'reassoc'}
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or',
       'xor', 'shl', 'lshr', 'ashr'}
CAST = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'}


def parse_inst(s):
    text = s
    s = strip_meta(s)
    s = re.sub(r' #\d+$', '', s)
    toks = tokens(s)
    p = P(toks)
    dst = None
    if p.peek(1) == '=':
        dst = p.next()
        p.next()
    op = p.next()
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()

    def flags():
        f = []
        while p.peek() in FLAGS:
            f.append(p.next())
        return f

    if op in BIN:
        flags()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Inst(op, dst, t, [a, b], None, text)
    if op == 'icmp':
        flags()
        pr = p.next()
        if pr in FLAGS:
            pr = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Inst(op, dst, t, [a, b], pr, text)
    if op in CAST:
        flags()
        t = p.type()
        a = p.value(t)
        p.expect('to')
        t2 = p.type()
        return Inst(op, dst, t2, [a], t, text)
    if op == 'br':
        if p.peek() == 'label':
            p.next()
            return Inst(op, None, None, [], [p.next()], text)
        p.expect('i1')
        c = p.value(('i', 1))
        p.expect(',')
        p.expect('label')
        a = p.next()
        p.expect(',')
        p.expect('label')
        b = p.next()
        return Inst(op, None, None, [c], [a, b], text)
    if op == 'switch':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.expect('label')
        d = p.next()
        p.expect('[')
        cs = []
        while not p.eat(']'):
            p.type()
            k = p.value(t)
            p.expect(',')
            p.expect('label')
            cs.append((k[1], p.next()))
        return Inst(op, None, t, [v], (d, cs), text)
    if op == 'ret':
        t = p.type()
        if t == ('void',):
            return Inst(op, None, t, [], None, text)
        return Inst(op, None, t, [p.value(t)], None, text)
    if op == 'unreachable':
        return Inst(op, None, None, [], None, text)
    if op == 'phi':
        flags()
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            l = p.next()
            p.expect(']')
            inc.append((v, l))
            if not p.eat(','):
                break
        return Inst(op, dst, t, inc, None, text)
    if op == 'select':
        flags()
        ct = p.type()
        c = p.value(ct)
        p.expect(',')
        t, a = p.tv()
        p.expect(',')
        t, b = p.tv()
        return Inst(op, dst, t, [c, a, b], None, text)
    if op == 'load':
        flags()
        t = p.type()
        p.expect(',')
        _, a = p.tv()
        return Inst(op, dst, t, [a], None, text)
    if op == 'store':
        flags()
        t, v = p.tv()
        p.expect(',')
        _, a = p.tv()
        return Inst(op, None, t, [v, a], None, text)
    if op == 'alloca':
        t = p.type()
        return Inst(op, dst, t, [], None, text)
    if op == 'getelementptr':
        flags()
        bt = p.type()
        p.expect(',')
        _, b = p.tv()
        args = [b]
        its = []
        while p.eat(','):
            t, v = p.tv()
            its.append(t)
            args.append(v)
        return Inst(op, dst, bt, args, its, text)
    if op == 'extractvalue':
        t, v = p.tv()
        ix = []
        while p.eat(','):
            ix.append(int(p.next()))
        return Inst(op, dst, t, [v], ix, text)
    if op == 'insertvalue':
        t, v = p.tv()
        p.expect(',')
        t2, v2 = p.tv()
        ix = []
        while p.eat(','):
            ix.append(int(p.next()))
        return Inst(op, dst, t, [v, v2], ix, text)
    if op == 'freeze':
        t, v = p.tv()
        return Inst(op, dst, t, [v], None, text)
    if op in ('call', 'invoke'):
        while True:
            p.skip_attrs()
            if p.at_type():
                break
            p.next()
        rt = p.type()
        if p.peek() == '(' or p.peek() == '...':
            p.skip_parens()
        callee = p.next()
        args, ats = [], []
        p.expect('(')
        while not p.eat(')'):
            t = p.type()
            if t == ('metadata',):
                while p.peek() not in (',', ')'):
                    p.next()
                p.eat(',')
                continue
            p.skip_attrs()
            args.append(p.value(t))
            ats.append(t)
            p.eat(',')
        x = [callee, ats]
        if op == 'invoke':
            while p.next() != 'to':
                pass
            p.expect('label')
            x.append(p.next())
        return Inst(op, dst, rt, args, x, text)
    return Inst('unsupported', dst, None, [], op, text)


# --- weak topological order (Bourdoncle) ------------------------------------

def wto(entry, succ):
    dfn = {v: 0 for v in succ}
    num = [0]
    stack = []

    def component(v):
        part = []
        for s in succ[v]:
            if dfn[s] == 0:
                visit(s, part)
        part.reverse()
        return ('loop', v, part)

    def visit(v, part):
        stack.append(v)
        num[0] += 1
        head = dfn[v] = num[0]
        loop = False
        for s in succ[v]:
            m = visit(s, part) if dfn[s] == 0 else dfn[s]
            if m <= head:
                head = m
                loop = True
        if head == dfn[v]:
            dfn[v] = float('inf')
            el = stack.pop()
            if loop:
                while el != v:
                    dfn[el] = 0
                    el = stack.pop()
                part.append(component(v))
            else:
                part.append(v)
        return head

    part = []
    visit(entry, part)
    part.reverse()
    return part


class Module:
    def __init__(self, path):
        self.funcs = {}
        self.globs = {}
        self.decls = set()
        cur = None
        with open(path, encoding='utf-8', errors='surrogateescape') as f:
            for ln in f:
                if cur is not None:
                    cur.append(ln.rstrip('\n'))
                    if ln.startswith('}'):
                        nm = re.search(r'@("[^"]*"|[-\w.$]+)\(', cur[0])
                        self.funcs['@' + nm.group(1)] = Func(
                            '@' + nm.group(1), cur, self)
                        cur = None
                elif ln.startswith('define'):
                    cur = [ln.rstrip('\n')]
                elif ln.startswith('@'):
                    k = ln.index(' = ')
                    self.globs[ln[:k]] = ln[k + 3:].rstrip('\n')
        self._g = {}
        for nm, d in list(self.globs.items()):
            m = re.match(r'(?:[\w()]+ )*alias .*ptr (@[^ ,]+)\s*$', d)
            if m:                       # merged identical functions
                x = m.group(1)
                while x in self.globs and x not in self.funcs:
                    x = re.search(r'ptr (@[^ ,]+)\s*$',
                                  self.globs[x]).group(1)
                if x in self.funcs:
                    self.funcs[nm] = self.funcs[x]

    def func(self, name):
        f = self.funcs.get(name)
        return f.parse() if f else None

    def glob(self, name):
        """('const'|'var', size, type, initializer value)"""
        g = self._g.get(name)
        if g is None:
            s = self.globs[name]
            m = re.search(r'\b(constant|global)\b', s)
            if m is None:
                raise KeyError(name)
            s2 = s[m.end():]
            s2 = re.sub(r'(, (align \d+|section "[^"]*"|comdat(\([^)]*\))?|'
                        r'![\w.]+ ![\w.]+))+$', '', s2)
            p = P(tokens(s2))
            t = p.type()
            init = p.value(t)
            g = self._g[name] = (m.group(1), size_of(t), t, init)
        return g
