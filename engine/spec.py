"""Independent specification of binary256 arithmetic as terms.

Written from the IEEE 754 definition of the format (19-bit exponent field,
236-bit fraction, bias 262143), not from the code under test.
"""
import terms as t

FB = 236            # fraction bits
P = 237             # precision
EB = 19
EMAXF = (1 << EB) - 1
BIAS = 262143
W = 256


def cat(hi, lo):
    return t.concat(hi, lo)


class F:
    """fields of a 256-bit pattern"""

    def __init__(self, bits):
        self.bits = bits
        self.s = t.extract(bits, 255, 255)
        self.e = t.extract(bits, 254, FB)
        self.f = t.extract(bits, FB - 1, 0)
        emax = t.eq(self.e, t.const(EMAXF, EB))
        ez = t.eq(self.e, t.const(0, EB))
        fz = t.eq(self.f, t.const(0, FB))
        self.nan = t.and_(emax, t.not_(fz))
        self.inf = t.and_(emax, fz)
        self.zero = t.and_(ez, fz)
        self.sub = t.and_(ez, t.not_(fz))
        self.fin = t.not_(emax)
        self.norm = t.and_(t.not_(emax), t.not_(ez))
        self.special = t.or_(emax, self.zero)
        # integral significand and exponent field of its quantum (>= 1)
        self.sig = t.concat(t.not_(ez), self.f)
        self.q = t.ite(ez, t.const(1, EB), self.e)
        self.abs = t.extract(bits, 254, 0)


def pack(s, e, f):
    return t.concat(s, t.concat(e, f))


def const(v):
    return t.const(v, W)


INF = t.const(EMAXF << FB, W)
NAN = t.const((EMAXF << FB) | (1 << (FB - 1)), W)


def signed(s, absbits):
    """256-bit pattern from sign and pattern with clear sign"""
    return t.concat(s, t.extract(absbits, 254, 0))


def isnan(bits):
    return F(bits).nan


def same(a, b):
    """same value: both NaN or identical bits"""
    return t.or_(t.and_(isnan(a), isnan(b)), t.eq(a, b))


def or_reduce(x):
    return t.ne(x, t.const(0, x.w))


def shr_sticky(x, n):
    """x >> n with the OR of all lost bits; n any width"""
    w = x.w
    nn = t.resize(n, w) if n.w <= w else None
    if nn is None:
        big = t.ne(t.extract(n, n.w - 1, w), t.const(0, n.w - w))
        nn = t.ite(big, t.const(w, w), t.trunc(n, w))
    r = t.lshr(x, nn)
    back = t.shl(r, nn)
    lost = t.ne(back, x)        # n >= w: r = 0, back = 0, lost = (x != 0)
    return r, lost


def round_pack(sign, m, e, sticky=None, EW=24):
    """|value| = (m + eps) * 2^(e) in units where e is the biased quantum
    exponent (the significand m of a number with exponent field q has e = q);
    0 < eps < 1 iff sticky.  e: signed EW bits.  m may be 0.
    Rounds to nearest even, returns a 256-bit pattern."""
    if sticky is None:
        sticky = t.FALSE
    w = m.w
    if w < P + 2:
        m = t.concat(m, t.const(0, P + 2 - w))
        e = t.sub(e, t.const(P + 2 - w, EW))
        w = P + 2
    lz = t.clz(m)
    mz = t.eq(m, t.const(0, w))
    # shift left until the msb is set, but not below the minimal quantum
    lzE = t.resize(lz, EW) if w >= EW else t.zext(lz, EW)
    lim = t.add(e, t.const(w - P - 1, EW))
    neg = t.slt(lim, t.const(0, EW))
    s = t.ite(neg, t.const(0, EW), t.ite(t.slt(lzE, lim), lzE, lim))
    n = t.shl(m, t.resize(s, w))
    n2, lost = shr_sticky(n, t.ite(neg, t.neg(lim), t.const(0, EW)))
    one = t.const(1, EW)
    qq = t.ite(neg, one, t.add(t.sub(lim, s), one))
    keep = t.extract(n2, w - 1, w - P)
    guard = t.extract(n2, w - P - 1, w - P - 1)
    rest = t.or_(lost, sticky)
    if w - P - 1 > 0:
        rest = t.or_(rest, or_reduce(t.extract(n2, w - P - 2, 0)))
    up = t.and_(guard, t.or_(rest, t.extract(keep, 0, 0)))
    # assemble: exponent field = q' with hidden bit added in
    hid = t.extract(keep, P - 1, P - 1)
    ef = t.add(t.sub(qq, one), t.zext(hid, EW))
    full = t.concat(ef, t.extract(keep, P - 2, 0))     # EW + FB bits
    full = t.add(full, t.zext(up, EW + FB))
    ovf = t.sle(t.const(EMAXF, EW), t.extract(full, EW + FB - 1, FB))
    r = t.ite(ovf, t.trunc(INF, 255), t.extract(full, 254, 0))
    r = t.ite(mz, t.const(0, 255), r)
    return t.concat(sign, r)


def cap(x, lim, w):
    """min(x, lim) as w bits (x unsigned)"""
    l = t.const(lim, x.w)
    return t.trunc(t.ite(t.ult(l, x), l, x), w)


def fadd(a, b, cuts=None):
    """correctly rounded a + b as a pattern (any NaN is NAN)"""
    x, y = F(a), F(b)
    sw = t.ult(x.abs, y.abs)
    A = F(t.ite(sw, b, a))
    B = F(t.ite(sw, a, b))
    # exact: A.sig * 2^d +- B.sig, in units of B's quantum; d capped
    G = P + 3
    d = t.sub(A.q, B.q)
    # ma = sigA << G ; mb = (sigB << G) >> d with sticky
    ma = t.concat(A.sig, t.const(0, G))
    mb = t.concat(B.sig, t.const(0, G))
    ma = t.zext(ma, ma.w + 1)
    mb = t.zext(mb, mb.w + 1)
    mbs, lost = shr_sticky(mb, d)
    diff = t.ne(A.s, B.s)
    add = t.add(ma, mbs)
    # subtraction with lost bits: (ma - mbs) - eps -> floor is one less
    subm = t.sub(t.sub(ma, mbs), t.zext(lost, ma.w))
    m = t.ite(diff, subm, add)
    e = t.sub(t.zext(A.q, 24), t.const(G, 24))
    if cuts is not None:
        cuts.append(m)
    exact0 = t.and_(diff, t.eq(x.abs, y.abs))
    r = round_pack(A.s, m, e, lost)
    zsign = t.and_(x.s, y.s)        # -0 only for (-0) + (-0)
    r = t.ite(exact0, t.const(0, W), r)
    r = t.ite(t.and_(x.zero, y.zero), t.concat(zsign, t.const(0, 255)), r)
    r = t.ite(t.or_(x.inf, y.inf),
              t.ite(x.inf, t.ite(t.and_(y.inf, t.ne(x.s, y.s)), NAN, a), b),
              r)
    return t.ite(t.or_(x.nan, y.nan), NAN, r)


def fneg(a):
    return t.concat(t.not_(t.extract(a, 255, 255)), t.extract(a, 254, 0))


def jam(x, n):
    """x >> n with the lost bits ORed into the least significant bit"""
    r, lost = shr_sticky(x, n)
    return t.or_(r, t.zext(lost, x.w))


def fadd3(a, b, cuts=None):
    """as fadd, with three extra bits (equal to fadd: checked by spec lemma)"""
    x, y = F(a), F(b)
    sw = t.ult(x.abs, y.abs)
    A = F(t.ite(sw, b, a))
    B = F(t.ite(sw, a, b))
    d = t.sub(A.q, B.q)
    w = P + 4
    ma = t.zext(t.concat(A.sig, t.const(0, 3)), w)
    mb = jam(t.zext(t.concat(B.sig, t.const(0, 3)), w), d)
    diff = t.ne(A.s, B.s)
    m = t.ite(diff, t.sub(ma, mb), t.add(ma, mb))
    if cuts is not None:
        cuts += [mb, m, t.implies(t.and_(t.ult(t.const(1, d.w), d), t.ne(
            A.e, t.const(0, EB))), or_reduce(t.extract(m, w - 1, w - 3)))]
    r = round_pack(A.s, m, t.sub(t.zext(A.q, 24), t.const(3, 24)))
    exact0 = t.and_(diff, t.eq(x.abs, y.abs))
    zsign = t.and_(x.s, y.s)
    r = t.ite(exact0, t.const(0, W), r)
    r = t.ite(t.and_(x.zero, y.zero), t.concat(zsign, t.const(0, 255)), r)
    r = t.ite(t.or_(x.inf, y.inf),
              t.ite(x.inf, t.ite(t.and_(y.inf, t.ne(x.s, y.s)), NAN, a), b),
              r)
    return t.ite(t.or_(x.nan, y.nan), NAN, r)


def round_norm(sign, m, e, sticky, EW=24, cuts=None):
    """round_pack for m with one of its two leading bits set"""
    w = m.w
    top = t.extract(m, w - 1, w - 1)
    m = t.ite(top, m, t.concat(t.extract(m, w - 2, 0), t.const(0, 1)))
    # value in [2^(w-1), 2^w) * 2^q: exponent field q + w - P
    q = t.add(e, t.const(w - P, EW))
    q = t.sub(q, t.zext(t.not_(top), EW))
    if cuts is not None:
        cuts += [m, q]
    low = t.sle(q, t.const(0, EW))
    k = t.ite(low, t.sub(t.const(1, EW), q), t.const(0, EW))
    k = t.ite(t.slt(t.const(w, EW), k), t.const(w, EW), k)
    n, lost = shr_sticky(m, k)
    keep = t.extract(n, w - 1, w - P)
    guard = t.extract(n, w - P - 1, w - P - 1)
    rest = t.disj(lost, sticky, or_reduce(t.extract(n, w - P - 2, 0)))
    if cuts is not None:
        cuts += [keep, guard, rest]
    up = t.and_(guard, t.or_(rest, t.extract(keep, 0, 0)))
    base = t.ite(low, t.const(0, EW), t.sub(q, t.const(1, EW)))
    full = t.add(t.concat(base, t.const(0, FB)), t.zext(keep, EW + FB))
    full = t.add(full, t.zext(up, EW + FB))
    ovf = t.sle(t.const(EMAXF, EW), t.extract(full, EW + FB - 1, FB))
    r = t.ite(ovf, t.trunc(INF, 255), t.extract(full, 254, 0))
    return t.concat(sign, r)
