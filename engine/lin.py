"""Exact integer meaning of word-level arithmetic.

Every term of width w is an integer in [0, 2^w).  `Lin.lf` writes it as a
polynomial with integer coefficients over atoms; an atom is a digit (bit
range) of an opaque term, or floor(P / 2^l) of a polynomial P.  Wrapping is
explicit:  x + y mod 2^w = X + Y - 2^w * floor((X + Y) / 2^w).  Floors are
normalised (multiples of 2^l move out, nested floors merge, floors of values
known to be small vanish), so that sums of partial products that are
associated or split differently get the same polynomial.  Equal polynomials
mean equal values; unequal ones mean nothing.
"""
import terms as t


class NeedCut(Exception):
    pass


class Resolved(Exception):
    pass


class TooBig(Exception):
    pass


def tz(c):
    return (c & -c).bit_length() - 1


class Lin:
    def __init__(self, limit=4000):
        self.cuts = {}          # base term id -> set of cut positions
        self.known = {}         # (l, key of P) -> floor known to be this
        self.limit = limit
        self.atoms = []         # index -> (lo, hi)
        self.aid = {}
        self.terms = {}         # atom index -> description
        self.qatom = {}         # atom index -> (l, poly)
        self.made = set()
        self.reset()

    def reset(self):
        self.memo = {}
        self.bnd = {}           # polynomial key -> (lo, hi)

    # ---- atoms -------------------------------------------------------------
    def atom(self, key, lo, hi):
        i = self.aid.get(key)
        if i is None:
            i = len(self.atoms)
            self.aid[key] = i
            self.atoms.append((lo, hi))
            self.terms[i] = key
        return i

    def base(self, x):
        """opaque term as digits"""
        cs = sorted(c for c in self.cuts.get(x.id, ()) if 0 < c < x.w)
        ps = [0] + cs + [x.w]
        m = t.ub(x)
        r = {}
        for lo, hi in zip(ps, ps[1:]):
            top = min((1 << (hi - lo)) - 1, m >> lo)
            if top == 0:
                continue
            i = self.atom(('d', x.id, lo, hi), 0, top)
            r[(i,)] = 1 << lo
        return r

    # ---- polynomials --------------------------------------------------------
    def addp(self, a, b, k=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + k * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        if len(r) > self.limit:
            raise TooBig()
        return r

    def mulp(self, a, b):
        if len(a) * len(b) > self.limit * 4:
            raise TooBig()
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                q = tuple(sorted(m + n))
                if len(q) > 1:
                    # booleans are idempotent
                    out = []
                    for i in q:
                        if out and out[-1] == i and \
                                self.atoms[i] == (0, 1):
                            continue
                        out.append(i)
                    q = tuple(out)
                v = r.get(q, 0) + c * d
                if v:
                    r[q] = v
                else:
                    r.pop(q, None)
        return r

    def scale(self, a, k):
        return {m: c * k for m, c in a.items()}

    def key(self, a):
        return tuple(sorted(a.items()))

    def bounds(self, a):
        lo = hi = 0
        for m, c in a.items():
            x = y = 1
            for i in m:
                l, h = self.atoms[i]
                v = (x * l, x * h, y * l, y * h)
                x, y = min(v), max(v)
            if c < 0:
                x, y = y, x
            lo += c * x
            hi += c * y
        k = self.bnd.get(self.key(a))
        if k:
            lo, hi = max(lo, k[0]), min(hi, k[1])
        return lo, hi

    def record(self, a, lo, hi):
        k = self.key(a)
        o = self.bnd.get(k)
        self.bnd[k] = (max(lo, o[0]), min(hi, o[1])) if o else (lo, hi)

    # ---- floor --------------------------------------------------------------
    def q(self, l, a, bd=None):
        """floor(a / 2^l)"""
        if l == 0 or not a:
            return a
        M = 1 << l
        H = M >> 1
        out, rest = {}, {}
        for m, c in a.items():
            r = c & (M - 1)
            if r > H:
                r -= M
            if m == () and r < 0:
                r += M
            if (c - r) >> l:
                out[m] = (c - r) >> l
            if r:
                rest[m] = r
        if not rest:
            return out
        lo, hi = self.bounds(a)
        if bd:
            lo, hi = max(lo, bd[0]), min(hi, bd[1])
        kk = (l, self.key(rest))
        if kk in self.known:
            return self.addp(out, self.known[kk])
        if lo >> l == hi >> l:
            # floor(rest / 2^l) = const - out
            v = self.addp({(): lo >> l} if lo >> l else {}, out, -1)
            self.known[kk] = v
            if kk in self.made:
                # an atom was made for it before: start again with this
                raise Resolved()
            return self.addp(out, v)
        rl, rh = self.bounds(rest)
        if rl >> l == rh >> l:
            return self.addp(out, {(): rl >> l} if rl >> l else {})
        # drop low terms that cannot matter
        zs = sorted({tz(c) for c in rest.values()}, reverse=True)
        for z in zs:
            if z == 0:
                break
            z = min(z, l)
            low = {m: c for m, c in rest.items() if tz(c) < z}
            ll, lh = self.bounds(low) if low else (0, 0)
            if ll >= 0 and lh >> z == 0:
                hi_ = {m: c >> z for m, c in rest.items() if tz(c) >= z}
                if z == l:
                    return self.addp(out, hi_)
                return self.addp(out, self.q(l - z, hi_))
        # a single floor inside: merge
        qs = [m for m, c in rest.items() if len(m) == 1 and c == 1
              and m[0] in self.qatom]
        if len(qs) == 1:
            k, S = self.qatom[qs[0][0]]
            r = {m: c for m, c in rest.items() if m != qs[0]}
            return self.addp(out, self.q(l + k, self.addp(
                self.scale(r, 1 << k), S)))
        # plain digits: cut the one across the boundary
        dig = []
        for m, c in rest.items():
            if len(m) == 1 and c > 0 and c & (c - 1) == 0 and \
                    self.terms[m[0]][0] == 'd':
                dig.append((tz(c), m[0]))
            elif m != ():
                dig = None
                break
        if dig:
            for z, i in dig:
                _, b, dl, dh = self.terms[i]
                if z < l < z + dh - dl:
                    self.cuts.setdefault(b, set()).add(dl + l - z)
                    raise NeedCut()
        lo, hi = self.bounds(rest)
        i = self.atom(('q', l, self.key(rest)), lo >> l, hi >> l)
        if i not in self.qatom:
            self.qatom[i] = (l, rest)
        self.made.add(kk)
        return self.addp(out, {(i,): 1})

    # ---- terms ---------------------------------------------------------------
    def wrap(self, a, w, bd=None):
        k = self.q(w, a, bd)
        r = self.addp(a, self.scale(k, 1 << w), -1) if k else a
        if not k and bd:
            self.record(r, max(0, bd[0]), bd[1])
        return r

    def lf(self, x):
        r = self.memo.get(x.id)
        if r is None:
            for y in t.topo_stop([x], self.memo):
                if y.id not in self.memo:
                    r = self.lf1(y)
                    self.record(r, 0, t.ub(y))
                    self.memo[y.id] = r
            r = self.memo[x.id]
        return r

    def tb(self, x):
        """bounds of the value of a term"""
        lo, hi = self.bounds(self.memo[x.id])
        return max(lo, 0), min(hi, t.ub(x))

    def lf1(self, x):
        op, a, w = x.op, x.a, x.w
        L = [self.memo[y.id] for y in a]
        if op == 'const':
            return {(): x.p} if x.p else {}
        if op == 'zext':
            return L[0]
        if op == 'concat':
            return self.addp(self.scale(L[0], 1 << a[1].w), L[1])
        if op == 'extract':
            hi, lo = x.p
            h = self.q(hi + 1, L[0], self.tb(a[0]))
            l = self.q(lo, L[0], self.tb(a[0]))
            return self.addp(l, self.scale(h, 1 << (hi + 1 - lo)), -1)
        if op in ('add', 'sub'):
            (l1, h1), (l2, h2) = self.tb(a[0]), self.tb(a[1])
            if op == 'add':
                return self.wrap(self.addp(L[0], L[1]), w,
                                 (l1 + l2, h1 + h2))
            return self.wrap(self.addp(L[0], L[1], -1), w,
                             (l1 - h2, h1 - l2))
        if op == 'mul':
            (l1, h1), (l2, h2) = self.tb(a[0]), self.tb(a[1])
            return self.wrap(self.mulp(L[0], L[1]), w, (l1 * l2, h1 * h2))
        if op == 'shl' and t.isc(a[1]) and a[1].p < w:
            return self.wrap(self.scale(L[0], 1 << a[1].p), w)
        if op == 'lshr' and t.isc(a[1]) and a[1].p < w:
            return self.q(a[1].p, L[0], self.tb(a[0]))
        if op == 'uaddo':
            (l1, h1), (l2, h2) = self.tb(a[0]), self.tb(a[1])
            return self.q(a[0].w, self.addp(L[0], L[1]), (l1 + l2, h1 + h2))
        if op == 'ult':
            (l1, h1), (l2, h2) = self.tb(a[0]), self.tb(a[1])
            return self.scale(self.q(a[0].w, self.addp(L[0], L[1], -1),
                                     (l1 - h2, h1 - l2)), -1)
        if op == 'not':
            return self.addp({(): (1 << w) - 1}, L[0], -1)
        if op == 'and' and w == 1 and len(a) == 2 and self.small(L):
            return self.mulp(L[0], L[1])
        if op == 'or' and w == 1 and len(a) == 2 and self.small(L):
            return self.addp(self.addp(L[0], L[1]),
                             self.mulp(L[0], L[1]), -1)
        if op == 'xor' and w == 1 and len(a) == 2 and self.small(L):
            return self.addp(self.addp(L[0], L[1]),
                             self.scale(self.mulp(L[0], L[1]), 2), -1)
        if op == 'and' and len(a) == 2:
            for i in (0, 1):
                if t.isc(a[i]):
                    c = a[i].p
                    if c & (c + 1) == 0:        # low bits
                        n = c.bit_length()
                        return self.addp(L[1 - i], self.scale(
                            self.q(n, L[1 - i], self.tb(a[1 - i])),
                            1 << n), -1)
                    n = tz(c)
                    if c == ((1 << w) - 1) ^ ((1 << n) - 1):
                        return self.scale(self.q(n, L[1 - i]), 1 << n)
        if op == 'or' and len(a) == 2:
            for u, v in ((0, 1), (1, 0)):
                if t.tz(a[u]) and t.ub(a[v]) >> t.tz(a[u]) == 0:
                    return self.addp(L[0], L[1])
        if op == 'ite' and len(L[0]) * (len(L[1]) + len(L[2])) <= 60:
            return self.addp(L[2], self.mulp(L[0], self.addp(
                L[1], L[2], -1)))
        return self.base(x)

    def small(self, L):
        return len(L[0]) * len(L[1]) <= 16

    def forms(self, xs, tries=400):
        """polynomial of each term (None: too big), all in one atom space"""
        for _ in range(tries):
            self.reset()
            try:
                out = []
                for x in xs:
                    try:
                        out.append(self.key(self.lf(x)))
                    except TooBig:
                        out.append(None)
                return out
            except NeedCut:
                continue
            except Resolved:
                continue
        return [None] * len(xs)
