"""Deciding procedures for terms: bit-blasting to CNF (kissat) and z3."""
import os
import subprocess
import sys
import tempfile
import time
import terms as t

RANGES = {}          # var name -> (lo, hi)
STATS = {'queries': 0, 'sat': 0, 'unsat': 0, 'unknown': 0, 'solver_s': 0.0,
         'build_s': 0.0}


def rvar(name, w, lo=0, hi=None):
    """variable with a declared range (asserted in every query using it)"""
    v = t.var(name, w)
    hi = t.mask(w) if hi is None else hi
    RANGES[name] = (lo, hi)
    v._ub = hi
    return v


# --------------------------------------------------------------------------
# gates: literal = 2*node + sign; node 0 is constant false

class Gates:
    def __init__(self):
        self.tab = {}
        self.defs = [None]      # node -> ('in',) | ('and',a,b) | ...
        self.bits = {}          # term id -> tuple of literals (LSB first)
        self.inputs = {}        # var name -> literals
        self.side = []          # literals that must hold

    def new(self, d):
        self.defs.append(d)
        return 2 * (len(self.defs) - 1)

    def inp(self):
        return self.new(('in',))

    def and_(self, a, b):
        if a == b:
            return a
        if a ^ b == 1 or a == 0 or b == 0:
            return 0
        if a == 1:
            return b
        if b == 1:
            return a
        if a > b:
            a, b = b, a
        k = ('and', a, b)
        r = self.tab.get(k)
        if r is None:
            # one-level absorption
            for x, y in ((a, b), (b, a)):
                d = self.defs[x >> 1]
                if d[0] == 'and':
                    if x & 1 == 0:
                        if d[1] == y or d[2] == y:
                            return x
                        if d[1] == y ^ 1 or d[2] == y ^ 1:
                            return 0
                    else:
                        if d[1] == y ^ 1 or d[2] == y ^ 1:
                            return y
                        if d[1] == y:
                            return self.and_(y, d[2] ^ 1)
                        if d[2] == y:
                            return self.and_(y, d[1] ^ 1)
            r = self.tab[k] = self.new(k)
        return r

    def or_(self, a, b):
        return self.and_(a ^ 1, b ^ 1) ^ 1

    def xor(self, a, b):
        if a == b:
            return 0
        if a ^ b == 1:
            return 1
        if a < 2:
            return b ^ a
        if b < 2:
            return a ^ b
        s = (a ^ b) & 1
        a &= ~1
        b &= ~1
        if a > b:
            a, b = b, a
        k = ('xor', a, b)
        r = self.tab.get(k)
        if r is None:
            for x, y in ((a, b), (b, a)):
                d = self.defs[x >> 1]
                if d[0] == 'xor':
                    if d[1] == y:
                        return d[2] ^ s
                    if d[2] == y:
                        return d[1] ^ s
            r = self.tab[k] = self.new(k)
        return r ^ s

    def mux(self, c, a, b):
        if c == 1:
            return a
        if c == 0:
            return b
        if a == b:
            return a
        if c & 1:
            c, a, b = c ^ 1, b, a
        if a == c:
            a = 1
        elif a == c ^ 1:
            a = 0
        if b == c:
            b = 0
        elif b == c ^ 1:
            b = 1
        if a == b:
            return a
        if a == 1:
            return self.or_(c, b)
        if a == 0:
            return self.and_(c ^ 1, b)
        if b == 1:
            return self.or_(c ^ 1, a)
        if b == 0:
            return self.and_(c, a)
        if a ^ b == 1:
            return self.xor(c, b)
        s = a & 1
        if s:
            a, b = a ^ 1, b ^ 1
        k = ('mux', c, a, b)
        r = self.tab.get(k)
        if r is None:
            r = self.tab[k] = self.new(k)
        return r ^ s

    def maj(self, a, b, c):
        if a == b:
            return a
        if a == c:
            return a
        if b == c:
            return b
        if a ^ b == 1:
            return c
        if a ^ c == 1:
            return b
        if b ^ c == 1:
            return a
        for x, y, z in ((a, b, c), (b, a, c), (c, a, b)):
            if x == 0:
                return self.and_(y, z)
            if x == 1:
                return self.or_(y, z)
        l = sorted((a, b, c))
        s = l[0] & 1
        if s:
            l = sorted(x ^ 1 for x in l)
        k = ('maj', l[0], l[1], l[2])
        r = self.tab.get(k)
        if r is None:
            r = self.tab[k] = self.new(k)
        return r ^ s

    # ---- words (LSB first lists) -------------------------------------------
    def addw(self, a, b, c=0):
        out = []
        for x, y in zip(a, b):
            out.append(self.xor(self.xor(x, y), c))
            c = self.maj(x, y, c)
        return out, c

    def ltu(self, a, b):
        """a < b : no carry out of a + ~b + 1"""
        c = 1
        for x, y in zip(a, b):
            c = self.maj(x, y ^ 1, c)
        return c ^ 1

    def eqw(self, a, b):
        r = 1
        xs = [self.xor(x, y) ^ 1 for x, y in zip(a, b)]
        while len(xs) > 1:
            xs = [self.and_(xs[i], xs[i + 1]) if i + 1 < len(xs) else xs[i]
                  for i in range(0, len(xs), 2)]
        return xs[0] if xs else r

    def shift(self, a, n, left, fill=0):
        w = len(a)
        k = 0
        a = list(a)
        big = 0
        for i, s in enumerate(n):
            if (1 << i) >= w:
                big = self.or_(big, s)
                continue
            if s == 0:
                continue
            d = 1 << i
            if left:
                sh = [fill] * d + a[:w - d]
            else:
                sh = a[d:] + [fill] * d
            a = [self.mux(s, x, y) for x, y in zip(sh, a)]
        if big:
            a = [self.mux(big, fill, x) for x in a]
        return a

    def mulw(self, a, b, w):
        if sum(1 for x in a if x > 1) < sum(1 for x in b if x > 1) or \
                all(x < 2 for x in b) is False and all(x < 2 for x in a):
            a, b = b, a
        # b has fewer symbolic bits
        acc = [0] * w
        if all(x < 2 for x in b):
            # constant: non-adjacent form
            v = sum(x << i for i, x in enumerate(b))
            i = 0
            while v and i < w:
                if v & 1:
                    d = 2 - (v & 3)
                    sh = ([0] * i + list(a))[:w]
                    sh += [0] * (w - len(sh))
                    if d == 1:
                        acc, _ = self.addw(acc, sh)
                    else:
                        acc, _ = self.addw(acc, [x ^ 1 for x in sh], 1)
                    v -= d
                v >>= 1
                i += 1
            return acc
        # carry-save array reduction of partial products
        cols = [[] for _ in range(w)]
        for i, y in enumerate(b):
            if y == 0 or i >= w:
                continue
            for j, x in enumerate(a):
                if i + j >= w:
                    break
                g = self.and_(x, y)
                if g:
                    cols[i + j].append(g)
        rows = []
        for i in range(w):
            c = cols[i]
            q = 0
            while len(c) - q > 2:
                x, y, z = c[q], c[q + 1], c[q + 2]
                q += 3
                c.append(self.xor(self.xor(x, y), z))
                if i + 1 < w:
                    cols[i + 1].append(self.maj(x, y, z))
            cols[i] = c[q:]
        ra = [c[0] if c else 0 for c in cols]
        rb = [c[1] if len(c) > 1 else 0 for c in cols]
        return self.addw(ra, rb)[0]

    def clz(self, a, w):
        """leading zeros as w-bit number; a LSB first"""
        n = len(a)
        p = 1
        while p < n:
            p *= 2
        a = [1] * (p - n) + list(a)     # pad below with ones
        # recursive: returns (count bits, allzero)

        def rec(x):
            if len(x) == 1:
                return [], x[0] ^ 1
            h = len(x) // 2
            cl, zl = rec(x[:h])
            ch, zh = rec(x[h:])
            cnt = [self.mux(zh, l, u) for l, u in zip(cl, ch)]
            return cnt + [zh], self.and_(zh, zl)
        cnt, z = rec(a)
        # a all zero: only possible if p == n; count = n
        cnt = cnt + [0]
        if p == n:
            full = [(n >> i) & 1 for i in range(len(cnt))]
            cnt = [self.mux(z, f, c) for f, c in zip(full, cnt)]
        cnt = (cnt + [0] * w)[:w]
        return cnt

    # ---- terms -------------------------------------------------------------
    def blast(self, roots):
        stop = self.bits
        for x in t.topo_stop(roots, stop):
            if x.id not in stop:
                stop[x.id] = tuple(self.one(x))
        return [self.bits[r.id] for r in roots]

    def one(self, x):
        op, w = x.op, x.w
        B = [self.bits[y.id] for y in x.a]
        if op == 'const':
            return [(x.p >> i) & 1 for i in range(w)]
        if op == 'var':
            v = self.inputs.get(x.p)
            if v is None:
                lo, hi = RANGES.get(x.p, (0, None))
                n = w if hi is None else hi.bit_length()
                v = [self.inp() for _ in range(n)] + [0] * (w - n)
                self.inputs[x.p] = v
                if lo:
                    c = [(lo >> i) & 1 for i in range(w)]
                    self.side.append(self.ltu(v, c) ^ 1)
                if hi is not None and hi & (hi + 1):
                    c = [(hi >> i) & 1 for i in range(w)]
                    self.side.append(self.ltu(c, v) ^ 1)
            return v
        if op == 'add':
            return self.addw(B[0], B[1])[0]
        if op == 'sub':
            return self.addw(B[0], [b ^ 1 for b in B[1]], 1)[0]
        if op == 'mul':
            return self.mulw(B[0], B[1], w)
        if op in ('udiv', 'urem'):
            return self.divrem(x, B)[0 if op == 'udiv' else 1]
        if op in ('sdiv', 'srem'):
            a, b = B
            sa, sb = a[-1], b[-1]
            ua = self.negif(sa, a)
            ub_ = self.negif(sb, b)
            q, r = self.divrem_bits(ua, ub_)
            return self.negif(self.xor(sa, sb), q) if op == 'sdiv' \
                else self.negif(sa, r)
        if op == 'and':
            return [self.and_(a, b) for a, b in zip(*B)]
        if op == 'or':
            return [self.or_(a, b) for a, b in zip(*B)]
        if op == 'xor':
            return [self.xor(a, b) for a, b in zip(*B)]
        if op == 'not':
            return [a ^ 1 for a in B[0]]
        if op == 'shl':
            return self.shift(B[0], B[1], True)
        if op == 'lshr':
            return self.shift(B[0], B[1], False)
        if op == 'ashr':
            return self.shift(B[0], B[1], False, B[0][-1])
        if op == 'concat':
            return B[1] + B[0]
        if op == 'extract':
            return B[0][x.p[1]:x.p[0] + 1]
        if op == 'zext':
            return B[0] + (0,) * (w - len(B[0]))
        if op == 'sext':
            return B[0] + (B[0][-1],) * (w - len(B[0]))
        if op == 'ite':
            c = B[0][0]
            return [self.mux(c, a, b) for a, b in zip(B[1], B[2])]
        if op == 'eq':
            return [self.eqw(B[0], B[1])]
        if op == 'ult':
            return [self.ltu(B[0], B[1])]
        if op == 'ule':
            return [self.ltu(B[1], B[0]) ^ 1]
        if op in ('slt', 'sle'):
            a = list(B[0])
            b = list(B[1])
            a[-1] ^= 1
            b[-1] ^= 1
            return [self.ltu(a, b)] if op == 'slt' else [self.ltu(b, a) ^ 1]
        if op == 'uaddo':
            return [self.addw(B[0], B[1])[1]]
        if op == 'clz':
            return self.clz(B[0], w)
        if op == 'ctz':
            return self.clz(B[0][::-1], w)
        if op == 'pop':
            cols = [[b] for b in B[0]]
            acc = [0] * w
            for b in B[0]:
                acc, _ = self.addw(acc, [b] + [0] * (w - 1))
            return acc
        raise NotImplementedError(op)

    def negif(self, s, a):
        return self.addw([self.xor(s, x) for x in a],
                         [s] + [0] * (len(a) - 1))[0]

    def divrem(self, x, B):
        k = ('dr', x.a[0].id, x.a[1].id)
        r = self.tab.get(k)
        if r is None:
            r = self.tab[k] = self.divrem_bits(B[0], B[1])
        return r

    def divrem_bits(self, a, b):
        """fresh q, r with a = q*b + r, r < b (b != 0)"""
        w = len(a)
        na = w
        while na and a[na - 1] == 0:
            na -= 1
        nb = w
        while nb and b[nb - 1] == 0:
            nb -= 1
        q = [self.inp() for _ in range(na)] + [0] * (w - na)
        r = [self.inp() for _ in range(min(na, nb))]
        r += [0] * (w - len(r))
        p = self.mulw(q[:na], b[:nb], na + nb)
        z = (r + [0] * (na + nb))[:na + nb]
        s, c = self.addw(p, z)
        aw = (list(a[:na]) + [0] * nb)[:na + nb]
        ok = self.and_(self.eqw(s, aw), self.ltu(r, b))
        bz = self.eqw(b, [0] * w)
        self.side.append(self.mux(bz, 1, self.and_(ok, c ^ 1)))
        q2 = [self.mux(bz, 1, x) for x in q]
        r2 = [self.mux(bz, y, x) for x, y in zip(r, a)]
        return q2, r2

    # ---- CNF ---------------------------------------------------------------
    def cnf(self, lits):
        """Tseitin over the cone of lits; returns (clauses, var map)"""
        seen = {}
        st = [l >> 1 for l in lits if l > 1]
        order = []
        while st:
            n = st.pop()
            if n in seen or n == 0:
                continue
            seen[n] = len(order) + 1
            order.append(n)
            d = self.defs[n]
            for l in d[1:]:
                if l >> 1 not in seen:
                    st.append(l >> 1)
        out = []

        def v(l):
            x = seen[l >> 1]
            return -x if l & 1 else x
        for n in order:
            d = self.defs[n]
            k = d[0]
            o = seen[n]
            if k == 'and':
                a, b = v(d[1]), v(d[2])
                out += ['%d %d 0' % (-o, a), '%d %d 0' % (-o, b),
                        '%d %d %d 0' % (o, -a, -b)]
            elif k == 'xor':
                a, b = v(d[1]), v(d[2])
                out += ['%d %d %d 0' % (-o, a, b),
                        '%d %d %d 0' % (-o, -a, -b),
                        '%d %d %d 0' % (o, -a, b), '%d %d %d 0' % (o, a, -b)]
            elif k == 'mux':
                c, a, b = v(d[1]), v(d[2]), v(d[3])
                out += ['%d %d %d 0' % (-c, -a, o), '%d %d %d 0' % (-c, a, -o),
                        '%d %d %d 0' % (c, -b, o), '%d %d %d 0' % (c, b, -o),
                        '%d %d %d 0' % (-a, -b, o), '%d %d %d 0' % (a, b, -o)]
            elif k == 'maj':
                a, b, c = v(d[1]), v(d[2]), v(d[3])
                for x, y in ((a, b), (a, c), (b, c)):
                    out += ['%d %d %d 0' % (-x, -y, o),
                            '%d %d %d 0' % (x, y, -o)]
        for l in lits:
            if l == 1:
                continue
            if l == 0:
                out.append('0')
            else:
                out.append('%d 0' % v(l))
        return out, seen, len(order)


KISSAT = None


def kissat_path():
    global KISSAT
    if KISSAT is None:
        for p in ('/usr/local/bin/kissat',
                  '/root/.kani/kani-0.68.0/bin/kissat'):
            if os.path.exists(p):
                KISSAT = p
                break
    return KISSAT


TMP = os.environ.get('VERIF_TMP') or tempfile.gettempdir()


def check(cons, timeout=60.0, want_model=True, opts=()):
    """satisfiability of the conjunction of 1-bit terms"""
    t0 = time.time()
    STATS['queries'] += 1
    g = Gates()
    flat = []
    for c in cons:
        if c is t.FALSE:
            STATS['unsat'] += 1
            return 'unsat', None
        if c is not t.TRUE:
            flat.append(c)
    roots = [b[0] for b in g.blast(flat)] + []
    lits = roots + g.side
    if any(l == 0 for l in lits):
        STATS['unsat'] += 1
        STATS['build_s'] += time.time() - t0
        return 'unsat', None
    clauses, seen, nv = g.cnf(lits)
    fd, path = tempfile.mkstemp(suffix='.cnf', dir=TMP)
    with os.fdopen(fd, 'w') as f:
        f.write('p cnf %d %d\n' % (nv, len(clauses)))
        f.write('\n'.join(clauses))
        f.write('\n')
    t1 = time.time()
    STATS['build_s'] += t1 - t0
    try:
        p = subprocess.run([kissat_path(), '-q', '--time=%d'
                            % max(1, int(timeout)), *opts]
                           + ([] if want_model else ['-n']) + [path],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    finally:
        os.unlink(path)
    STATS['solver_s'] += time.time() - t1
    if p.returncode == 20:
        STATS['unsat'] += 1
        return 'unsat', None
    if p.returncode != 10:
        STATS['unknown'] += 1
        return 'unknown', None
    STATS['sat'] += 1
    if not want_model:
        return 'sat', None
    true = set()
    for ln in p.stdout.decode().splitlines():
        if ln.startswith('v '):
            for x in ln[2:].split():
                k = int(x)
                if k > 0:
                    true.add(k)
    env = {}
    for nm, ls in g.inputs.items():
        v = 0
        for i, l in enumerate(ls):
            if l < 2:
                b = l
            else:
                b = (seen.get(l >> 1, 0) in true) ^ (l & 1)
            v |= int(b) << i
        env[nm] = v
    return 'sat', env


# --------------------------------------------------------------------------
# z3

def to_z3(roots, ctx=None, cut=None):
    import z3
    m = {}

    def bv(x):
        r = m[x.id]
        return z3.If(r, z3.BitVecVal(1, 1, ctx), z3.BitVecVal(0, 1, ctx)) \
            if x.w == 1 else r
    side = []
    for x in t.topo(roots):
        op, w, a = x.op, x.w, x.a
        if op == 'const':
            r = z3.BoolVal(bool(x.p), ctx) if w == 1 \
                else z3.BitVecVal(x.p, w, ctx)
        elif op == 'var':
            r = z3.Bool(x.p, ctx) if w == 1 else z3.BitVec(x.p, w, ctx)
            if x.p in RANGES:
                lo, hi = RANGES[x.p]
                side += [z3.ULE(lo, r), z3.ULE(r, hi)]
        elif w == 1 and op in ('and', 'or', 'xor', 'not', 'ite', 'eq'):
            if op == 'eq':
                r = m[a[0].id] == m[a[1].id]
            elif op == 'not':
                r = z3.Not(m[a[0].id])
            elif op == 'ite':
                r = z3.If(m[a[0].id], m[a[1].id], m[a[2].id])
            elif op == 'and':
                r = z3.And(m[a[0].id], m[a[1].id])
            elif op == 'or':
                r = z3.Or(m[a[0].id], m[a[1].id])
            else:
                r = z3.Xor(m[a[0].id], m[a[1].id])
        else:
            A = [bv(y) for y in a]
            if op == 'ite':
                r = z3.If(m[a[0].id], A[1], A[2])
            elif op == 'add':
                r = A[0] + A[1]
            elif op == 'sub':
                r = A[0] - A[1]
            elif op == 'mul':
                r = A[0] * A[1]
            elif op == 'udiv':
                r = z3.UDiv(A[0], A[1])
            elif op == 'urem':
                r = z3.URem(A[0], A[1])
            elif op == 'sdiv':
                r = A[0] / A[1]
            elif op == 'srem':
                r = z3.SRem(A[0], A[1])
            elif op == 'and':
                r = A[0] & A[1]
            elif op == 'or':
                r = A[0] | A[1]
            elif op == 'xor':
                r = A[0] ^ A[1]
            elif op == 'not':
                r = ~A[0]
            elif op == 'shl':
                r = A[0] << A[1]
            elif op == 'lshr':
                r = z3.LShR(A[0], A[1])
            elif op == 'ashr':
                r = A[0] >> A[1]
            elif op == 'concat':
                r = z3.Concat(A[0], A[1])
            elif op == 'extract':
                r = z3.Extract(x.p[0], x.p[1], A[0])
            elif op == 'zext':
                r = z3.ZeroExt(w - a[0].w, A[0])
            elif op == 'sext':
                r = z3.SignExt(w - a[0].w, A[0])
            elif op == 'ult':
                r = z3.ULT(A[0], A[1])
            elif op == 'ule':
                r = z3.ULE(A[0], A[1])
            elif op == 'slt':
                r = A[0] < A[1]
            elif op == 'sle':
                r = A[0] <= A[1]
            elif op == 'uaddo':
                n = a[0].w
                s = z3.ZeroExt(1, A[0]) + z3.ZeroExt(1, A[1])
                r = z3.Extract(n, n, s) == 1
            elif op in ('clz', 'ctz'):
                n = w
                r = z3.BitVecVal(n, w, ctx)
                rng = range(n) if op == 'clz' else range(n - 1, -1, -1)
                for i in rng:
                    v = n - 1 - i if op == 'clz' else i
                    r = z3.If(z3.Extract(i, i, A[0]) == 1,
                              z3.BitVecVal(v, w, ctx), r)
            elif op == 'pop':
                r = z3.BitVecVal(0, w, ctx)
                for i in range(w):
                    r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, A[0]))
            else:
                raise NotImplementedError(op)
            if w == 1 and op not in ('ult', 'ule', 'slt', 'sle', 'uaddo'):
                r = r == 1
        m[x.id] = r
    return [m[r.id] for r in roots], side


def check_z3(cons, timeout=60.0):
    import z3
    t0 = time.time()
    STATS['queries'] += 1
    rs, side = to_z3(list(cons))
    s = z3.SolverFor('QF_BV')
    s.set('timeout', int(timeout * 1000))
    s.add(*rs, *side)
    r = s.check()
    STATS['solver_s'] += time.time() - t0
    k = str(r)
    STATS[k if k in STATS else 'unknown'] += 1
    env = None
    if k == 'sat':
        mod = s.model()
        env = {}
        for v in t.variables(cons):
            if v.w == 1:
                env[v.p] = int(z3.is_true(mod.eval(z3.Bool(v.p), True)))
            else:
                env[v.p] = mod.eval(z3.BitVec(v.p, v.w), True).as_long()
    return k, env


# --------------------------------------------------------------------------
# SAT sweeping back end (sweep.cc)

SWEEP = os.path.join(os.path.dirname(os.path.abspath(__file__)),
                     '..', 'build', 'sweep')


def nodiv(roots):
    """replace udiv/urem by fresh quotient/remainder variables"""
    order = t.topo(roots)
    if not any(x.op in ('udiv', 'urem', 'sdiv', 'srem') for x in order):
        return list(roots), []
    m = {}
    side = []
    qr = {}
    for x in order:
        if x.op in ('sdiv', 'srem'):
            raise NotImplementedError(x.op)
        if x.op in ('udiv', 'urem'):
            a, b = t.substitute([x.a[0], x.a[1]], m) if m else (x.a[0], x.a[1])
            k = (a.id, b.id)
            if k not in qr:
                w = a.w
                q, r = t.fresh('q', w), t.fresh('r', w)
                z = t.const(0, w)
                bz = t.eq(b, z)
                W = t.add(t.mul(t.zext(q, 2 * w), t.zext(b, 2 * w)),
                          t.zext(r, 2 * w))
                side.append(t.ite(bz, t.and_(t.eq(q, t.const(-1, w)),
                                             t.eq(r, a)),
                                  t.and_(t.eq(W, t.zext(a, 2 * w)),
                                         t.ult(r, b))))
                qr[k] = (q, r)
            m[x] = qr[k][0] if x.op == 'udiv' else qr[k][1]
    return t.substitute(list(roots), m), side


def serialize(assume, goals, pats=(), cuts=()):
    out = []
    roots = list(cuts) + list(assume) + list(goals)
    names = []
    for x in t.topo(roots):
        if x.op == 'var':
            lo, hi = RANGES.get(x.p, (0, t.mask(x.w)))
            out.append('v %d %d %s %x %x' % (x.id, x.w, x.p, lo, hi))
            names.append(x.p)
        elif x.op == 'const':
            out.append('c %d %d %x' % (x.id, x.w, x.p))
        else:
            op = x.op
            s = 'o %d %d %s %d %s' % (x.id, x.w, op, len(x.a),
                                      ' '.join(str(y.id) for y in x.a))
            if op == 'extract':
                s += ' %d %d' % x.p
            out.append(s)
    for x in assume:
        out.append('a %d' % x.id)
    for x in cuts:
        if x.op not in ('const', 'var'):
            out.append('k %d' % x.id)
    for x in goals:
        out.append('g %d' % x.id)
    for p in pats:
        out.append('p ' + ' '.join('%x' % p.get(n, 0) for n in names))
    return '\n'.join(out) + '\n'


def sweep(assume, goals, timeout=60.0, pats=(), sweep=1, budget=300,
          verbose=False, cuts=()):
    """satisfiability of the conjunction; `assume` may be used in merging"""
    t0 = time.time()
    STATS['queries'] += 1
    if any(x is t.FALSE for x in list(assume) + list(goals)):
        STATS['unsat'] += 1
        return 'unsat', None
    n = len(assume)
    g = len(goals)
    rs, side = nodiv(list(assume) + list(goals) + list(cuts))
    cuts = rs[n + g:]
    rs = rs[:n + g]
    txt = serialize(rs[:n] + side, rs[n:], pats, cuts)
    t1 = time.time()
    STATS['build_s'] += t1 - t0
    p = subprocess.run([SWEEP, str(timeout), str(int(sweep)), kissat_path(),
                        TMP, str(budget)], input=txt.encode(),
                       stdout=subprocess.PIPE,
                       stderr=None if verbose or os.environ.get('SWEEP_V')
                       else subprocess.DEVNULL)
    STATS['solver_s'] += time.time() - t1
    lines = p.stdout.decode().splitlines()
    r = lines[0].strip() if lines else 'unknown'
    if r not in ('sat', 'unsat'):
        r = 'unknown'
    STATS[r] += 1
    if verbose:
        print(lines[-1] if lines else p.returncode)
    env = None
    if r == 'sat':
        env = {}
        for ln in lines[1:]:
            if ln.startswith('#'):
                continue
            k, v = ln.split()
            env[k] = int(v, 2)
        for x, v in zip(rs, t.evaluate(rs, env)):
            if v != 1:
                raise RuntimeError('sweep: model does not satisfy the query')
    return r, env
