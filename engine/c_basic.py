"""Checks: encoding, classification, order, sign, conversions, rounding to
integers, scaling by powers of two, unit in the last place."""
import core
import ref
import smt
import spec
import symex as S
import terms as t
from core import Case, Run, decide

CHECKS = {}


def check(pid, title, bounds, outside='', deadline=600, **kw):
    def deco(f):
        CHECKS[pid] = dict(pid=pid, title=title, make=f, bounds=bounds,
                           outside=outside, deadline=deadline, **kw)
        return f
    return deco


def V(name='a'):
    return t.var(name, 256)


def bit(x):
    return t.trunc(x, 1) if x.w > 1 else x


def c32(b):
    return t.zext(b, 32)


def un_case(name, entry, specf, assume=None, cuts=False, args=None, gen=None,
            timeout=120, method='sweep', weight=1.0, cmp=None, npats=512):
    """entry(a) must equal specf(a)"""
    def fn():
        a = V() if args is None else args()
        r = Run(entry, [('w', a)])
        cu = []
        sp = specf(a, cu) if cuts else specf(a)
        bad = t.or_(t.not_((cmp or spec.same)(r.res, sp)), r.panic)
        return decide(name, [r], bad, assume=assume(a) if assume else (),
                      cuts=cu, gen=gen, timeout=timeout, method=method,
                      expected=sp, npats=npats)
    return Case(name, fn, weight)


def val_case(name, entry, specf, n=1, timeout=120, method='sweep',
             assume=None, pairs=None):
    """scalar result: entry(args...) must equal specf(args...)"""
    def fn():
        a = [V(x) for x in 'abc'[:n]]
        r = Run(entry, [('w', x) for x in a], outs=())
        sp = specf(*a)
        bad = t.or_(t.ne(r.ret, t.zext(sp, r.ret.w)), r.panic)
        return decide(name, [r], bad, timeout=timeout, method=method,
                      assume=assume(*a) if assume else (), expected=sp,
                      gen=pairs)
    return Case(name, fn)


def exact(x, y):
    return t.eq(x, y)


ALL1 = 'none: every 256-bit pattern (2^256 inputs), no loop left out'
ALL2 = 'none: every pair of 256-bit patterns (2^512 inputs)'
ALL3 = 'none: every triple of 256-bit patterns'


def rel_gen(R):
    """correlated operands"""
    a = core.rnd_float(R)
    k = R.randrange(6)
    b = core.rnd_float(R)
    if k == 0:
        b = a
    elif k == 1:
        b = a ^ (1 << 255)
    elif k == 2:
        b = a ^ (1 << R.randrange(256))
    elif k == 3:
        b = (a + R.choice([1, -1, 2, 1 << 128, -(1 << 128)])) & t.mask(256)
    elif k == 4:
        b = a ^ R.getrandbits(128)
    return {'a': a, 'b': b}


# --------------------------------------------------------------------------
@check('P01', 'encoding', ALL1)
def p01(tier):
    def rev(a):
        r = None
        for i in range(32):
            x = t.extract(a, 8 * i + 7, 8 * i)
            r = x if r is None else t.concat(r, x)
        return r

    ident = lambda a: a
    cs = []
    for nm, sp in (('h_bits', ident), ('h_to_be', ident), ('h_to_le', rev),
                   ('h_from_be', ident), ('h_from_le', rev)):
        cs.append(un_case(nm, nm, sp, cmp=exact))

    def fne():
        # native order: only the round trip is documented
        a = V()
        r = Run('h_to_ne', [('w', a)])
        r2 = Run('h_from_ne', [('w', r.res)])
        return decide('from_ne_bytes(to_ne_bytes)', [r, r2], t.disj(
            t.ne(r2.res, a), r.panic, r2.panic), expected=a)
    cs.append(Case('ne', fne))

    consts = [spec.EMAXF << 236 | 1 << 235, ref.INF, ref.INF | ref.SIGN, 0,
              ref.SIGN, ref.ONE, ref.ONE | ref.SIGN, (262144 << 236),
              ref.exact(10, 0), (262143 - 236) << 236, ref.INF - 1,
              (ref.INF - 1) | ref.SIGN, 1 << 236, 1]

    def fconst():
        k = smt.rvar('k', 32, 0, 13)
        r = Run('h_const', [('v', k)])
        sp = t.const(consts[13], 256)
        for i in range(13):
            sp = t.ite(t.eq(k, t.const(i, 32)), t.const(consts[i], 256), sp)
        return decide('constants', [r], t.or_(t.ne(r.res, sp), r.panic),
                      expected=sp)
    cs.append(Case('constants', fconst))

    def fdec():
        # finite: sign, exponent and integral significand describe the value
        a = V()
        f = spec.F(a)
        r = Run('h_decode', [('w', a)], outs=(32, 8))
        c, st = r.out
        s, e = t.extract(st, 31, 0), t.extract(st, 63, 32)
        # c * 2^e = sig * 2^(q - 262378): c odd or zero, c << z = sig
        z = t.trunc(t.sub(t.sub(e, t.zext(f.q, 32)),
                          t.const(-(262143 + 236), 32)), 32)
        zz = t.ite(t.ult(z, t.const(256, 32)), t.resize(z, 256),
                   t.const(256, 256))
        okv = t.conj(t.eq(t.shl(c, zz), t.zext(f.sig, 256)),
                     t.eq(t.lshr(t.shl(c, zz), zz), c),
                     t.ult(z, t.const(237, 32)),
                     t.eq(t.extract(c, 0, 0), t.TRUE))
        okz = t.and_(t.eq(c, t.const(0, 256)), t.eq(e, t.const(0, 32)))
        bad = t.or_(t.ne(s, t.zext(f.s, 32)),
                    t.not_(t.ite(f.zero, okz, okv)))
        return decide('sign/exponent/significand of a finite value', [r],
                      t.or_(bad, r.panic), assume=[f.fin], timeout=200)
    cs.append(Case('decode', fdec))

    def frt():
        a = V()
        f = spec.F(a)
        r = Run('h_decode', [('w', a)], outs=(32, 8))
        c, st = r.out
        r2 = Run('h_encode', [('v', t.extract(st, 31, 0)),
                              ('v', t.extract(st, 63, 32)), ('w', c)])
        return decide('decode then encode', [r, r2],
                      t.or_(t.ne(r2.res, a), r2.panic), assume=[f.fin],
                      timeout=300, expected=a)
    cs.append(Case('roundtrip', frt, 3))
    return cs


@check('P02', 'classification', ALL1)
def p02(tier):
    F = spec.F
    cls = lambda f: t.ite(f.nan, t.const(0, 8), t.ite(
        f.inf, t.const(1, 8), t.ite(f.zero, t.const(2, 8), t.ite(
            f.sub, t.const(3, 8), t.const(4, 8)))))
    L = [('h_isnan', lambda f: f.nan), ('h_isinf', lambda f: f.inf),
         ('h_isfin', lambda f: f.fin), ('h_issub', lambda f: f.sub),
         ('h_isnorm', lambda f: f.norm), ('h_isspos', lambda f: t.not_(f.s)),
         ('h_issneg', lambda f: f.s), ('h_eqzero', lambda f: f.zero),
         ('h_isspecial', lambda f: t.disj(f.nan, f.inf, f.zero)),
         ('h_classify', cls)]
    return [val_case(n, n, (lambda g: lambda a: g(F(a)))(g)) for n, g in L]


def vlt(x, y):
    """numeric x < y for two values that are not NaN"""
    a, b = spec.F(x), spec.F(y)
    lt = t.ite(a.s, t.ite(b.s, t.ult(b.abs, a.abs), t.TRUE),
               t.ite(b.s, t.FALSE, t.ult(a.abs, b.abs)))
    return t.and_(lt, t.not_(t.and_(a.zero, b.zero)))


def veq(x, y):
    a, b = spec.F(x), spec.F(y)
    return t.and_(t.not_(t.or_(a.nan, b.nan)),
                  t.or_(t.eq(x, y), t.and_(a.zero, b.zero)))


@check('P03', 'comparison', ALL2)
def p03(tier):
    F = spec.F

    def ordered(x, y):
        return t.not_(t.or_(F(x).nan, F(y).nan))

    def pc(x, y):
        return t.ite(t.not_(ordered(x, y)), t.const(3, 8),
                     t.ite(vlt(x, y), t.const(0, 8),
                           t.ite(vlt(y, x), t.const(2, 8), t.const(1, 8))))

    def total(x, y):
        # IEEE 754 totalOrder on the bit patterns
        k = lambda v: t.concat(t.not_(t.extract(v, 255, 255)), t.ite(
            t.extract(v, 255, 255), t.not_(t.extract(v, 254, 0)),
            t.extract(v, 254, 0)))
        a, b = k(x), k(y)
        return t.ite(t.ult(a, b), t.const(0, 8),
                     t.ite(t.eq(a, b), t.const(1, 8), t.const(2, 8)))

    lt = lambda x, y: t.and_(ordered(x, y), vlt(x, y))
    L = [('h_eq', veq), ('h_ne', lambda x, y: t.not_(veq(x, y))),
         ('h_lt', lt), ('h_gt', lambda x, y: lt(y, x)),
         ('h_le', lambda x, y: t.or_(lt(x, y), veq(x, y))),
         ('h_ge', lambda x, y: t.or_(lt(y, x), veq(x, y))),
         ('h_pcmp', pc), ('h_tcmp', total)]

    def mk(nm, f):
        def fn():
            a, b = V('a'), V('b')
            r = Run(nm, [('w', a), ('w', b)], outs=())
            ok = lambda x, y: t.eq(r.ret, t.zext(f(x, y), r.ret.w))
            sp = f(a, b)
            good = ok(a, b)
            if nm not in ('h_eq', 'h_ne'):
                # known finding: two negative values in reverse order
                good = t.or_(good, t.and_(bothneg(a, b), ok(b, a)))
            return decide(nm, [r], t.or_(t.not_(good), r.panic),
                          expected=sp, gen=rel_gen)
        return Case(nm, fn)

    def fcons():
        a, b = V('a'), V('b')
        q = {}
        for nm in ('h_lt', 'h_le', 'h_gt', 'h_ge', 'h_pcmp', 'h_tcmp'):
            q[nm] = Run(nm, [('w', a), ('w', b)], outs=())
        o = t.and_(ordered(a, b), t.not_(veq(a, b)))
        v = lambda n, c: t.eq(q[n].ret, t.const(c, q[n].ret.w))
        lt_ = v('h_lt', 1)
        ok = t.conj(t.eq(v('h_le', 1), lt_), t.eq(v('h_gt', 0), lt_),
                    t.eq(v('h_ge', 0), lt_), t.eq(v('h_pcmp', 0), lt_),
                    t.eq(v('h_tcmp', 0), lt_))
        return decide('all comparisons agree', list(q.values()),
                      t.not_(ok), assume=[o], gen=rel_gen)
    return [mk(n, f) for n, f in L] + [Case('agree', fcons)]


def bothneg(x, y):
    return t.and_(t.extract(x, 255, 255), t.extract(y, 255, 255))


def code_lt(x, y, runs):
    """x < y; for two negative values as the code decides it (known finding
    of P03), so that the functions built on the order are judged by it"""
    r = Run('h_lt', [('w', x), ('w', y)], outs=())
    runs.append(r)
    return t.ite(bothneg(x, y), t.eq(r.ret, t.const(1, r.ret.w)), vlt(x, y))


@check('P04', 'min, max, clamp', ALL3)
def p04(tier):
    F = spec.F
    cs = []

    def mk(name, entry, lo):
        def fn():
            a, b = V('a'), V('b')
            r = Run(entry, [('w', a), ('w', b)])
            x, y = F(a), F(b)
            rs = [r]
            less, more = code_lt(a, b, rs), code_lt(b, a, rs)
            if not lo:
                less, more = more, less
            pick = t.ite(less, t.eq(r.res, a), t.ite(
                more, t.eq(r.res, b), t.or_(t.eq(r.res, a),
                                            t.eq(r.res, b))))
            # one NaN: the other operand
            ok = t.ite(x.nan, t.ite(y.nan, F(r.res).nan, t.eq(r.res, b)),
                       t.ite(y.nan, t.eq(r.res, a), pick))
            return decide(name, rs, t.or_(t.not_(ok), r.panic),
                          gen=rel_gen)
        return Case(name, fn)
    cs.append(mk('min', 'h_min', True))
    cs.append(mk('max', 'h_max', False))

    def gen3(R):
        d = rel_gen(R)
        d['c'] = rel_gen(R)['b'] if R.randrange(2) else d['b'] + \
            R.choice([0, 1, 1 << 236]) & t.mask(256)
        return d

    def fclamp():
        a, lo, hi = V('a'), V('b'), V('c')
        r = Run('h_clamp', [('w', a), ('w', lo), ('w', hi)])
        x = F(a)
        rs = [r]
        pre = t.conj(t.not_(F(lo).nan), t.not_(F(hi).nan),
                     t.not_(code_lt(hi, lo, rs)))
        sp = t.ite(x.nan, spec.NAN, t.ite(
            code_lt(a, lo, rs), lo, t.ite(code_lt(hi, a, rs), hi, a)))
        return decide('clamp', rs, t.or_(t.not_(spec.same(r.res, sp)),
                                          r.panic),
                      assume=[pre], gen=gen3, expected=sp)
    cs.append(Case('clamp', fclamp))

    def fpre():
        # a violated precondition is reported (panics), never ignored
        a, lo, hi = V('a'), V('b'), V('c')
        r = Run('h_clamp', [('w', a), ('w', lo), ('w', hi)])
        rs = [r]
        pre = t.conj(t.not_(F(lo).nan), t.not_(F(hi).nan),
                     t.not_(code_lt(hi, lo, rs)))
        return decide('clamp panics exactly on invalid bounds', rs,
                      t.ne(r.panic, t.not_(pre)), gen=gen3)
    cs.append(Case('clamp-pre', fpre))
    return cs


@check('P05', 'negation and absolute value', ALL1)
def p05(tier):
    sgn = t.const(1 << 255, 256)
    return [un_case('h_neg', 'h_neg', lambda a: t.xor(a, sgn)),
            un_case('h_negref', 'h_negref', lambda a: t.xor(a, sgn)),
            un_case('h_abs', 'h_abs', lambda a: t.and_(a, t.not_(sgn)))]


# ---- scaling -------------------------------------------------------------
def scale(a, n, left):
    """a * 2^(+-n), correctly rounded; n: 32 bits"""
    f = spec.F(a)
    EW = 36
    e = t.zext(f.q, EW)
    nn = t.zext(n, EW)
    e = t.add(e, nn) if left else t.sub(e, nn)
    r = spec.round_pack(f.s, f.sig, e, EW=EW)
    return t.ite(f.nan, spec.NAN, t.ite(t.or_(f.inf, f.zero), a, r))


@check('P13', 'scaling by powers of two',
       'none: every pattern and every 32-bit exponent')
def p13(tier):
    cs = []

    def mk(name, entry, left, lo, hi, sub):
        def fn():
            a = V()
            n = smt.rvar('n', 32, lo, hi)
            r = Run(entry, [('w', a), ('v', n)])
            sp = scale(a, n, left)
            f = spec.F(a)
            asm = [t.eq(f.e, t.const(0, 19))] if sub else \
                [t.ne(f.e, t.const(0, 19))]
            return decide(name, [r], t.or_(
                t.not_(spec.same(r.res, sp)), r.panic), assume=asm,
                expected=sp, timeout=200,
                gen=lambda R: {'a': core.rnd_float(R) & ~(
                    0x7ffff << 236) if sub else core.rnd_float(R)})
        return Case(name, fn, 2)
    for left, en in ((True, 'h_mulpow2'), (False, 'h_divpow2')):
        for sub in (0, 1):
            for lo, hi in ((0, 0), (1, 300), (301, 0x7ffff),
                           (0x80000, 0xffffffff)):
                cs.append(mk('%s n=%d..%d %s' % (
                    en[2:], lo, hi, 'subnormal/zero' if sub else
                    'normal/special'), en, left, lo, hi, sub))
    cs.append(un_case('mul2', 'h_mul2',
                      lambda a: scale(a, t.const(1, 32), True)))
    cs.append(un_case('div2', 'h_div2',
                      lambda a: scale(a, t.const(1, 32), False)))
    return cs


# ---- rounding to integers -------------------------------------------------
BIAS = spec.BIAS


def int_round(a, mode, cuts=None):
    """nearest integral value; mode: floor ceil round rte trunc"""
    f = spec.F(a)
    # number of fraction bits below the unit: k = 236 - (e - BIAS)
    big = t.ule(t.const(BIAS + 236, 19), f.e)       # integral, inf or nan
    small = t.ult(f.e, t.const(BIAS, 19))           # |a| < 1
    # k in 1..236 for BIAS <= e < BIAS+236; 237 stands for "below one half"
    k = t.sub(t.const(BIAS + 236, 19), f.e)
    sig = t.zext(f.sig, 256)
    kk = t.resize(t.ite(small, t.const(237, 19), t.ite(
        big, t.const(0, 19), k)), 256)
    q = t.lshr(sig, kk)
    rem = t.ne(t.shl(q, kk), sig)
    # fractional part against one half
    half_bit = t.extract(t.lshr(t.shl(sig, t.const(1, 256)), kk), 0, 0)
    below = t.ne(t.shl(t.lshr(t.shl(sig, t.const(1, 256)), kk), kk),
                 t.shl(sig, t.const(1, 256)))
    # |a| < 1: compare with one half directly
    e_half = t.eq(f.e, t.const(BIAS - 1, 19))
    half = t.ite(small, e_half, half_bit)
    tail = t.ite(small, t.ite(e_half, t.ne(f.f, t.const(0, 236)),
                              t.not_(f.zero)), below)
    inexact = t.ite(small, t.not_(f.zero), rem)
    q = t.ite(small, t.const(0, 256), q)
    up = {'floor': t.and_(f.s, inexact),
          'ceil': t.and_(t.not_(f.s), inexact),
          'round': half,
          'rte': t.and_(half, t.or_(tail, t.extract(q, 0, 0))),
          'trunc': t.FALSE}[mode]
    n = t.add(q, t.zext(up, 256))       # magnitude, <= 2^236
    # encode the integer n exactly
    n = t.trunc(n, 238)
    if cuts is not None:
        cuts.append(n)
    r = spec.round_pack(f.s, n, t.const(BIAS + 236, 24))
    return t.ite(f.nan, spec.NAN, t.ite(big, a, r))


def split_e(name, entry, specf, cmp, gen=None, **kw):
    """cases over the exponent: below one, 1..2^235, at least 2^235"""
    out = []
    lim = [(0, BIAS - 1), (BIAS, BIAS + 126), (BIAS + 127, BIAS + 235),
           (BIAS + 236, 0x7ffff)]
    for lo, hi in lim:
        def fn(lo=lo, hi=hi):
            e = smt.rvar('e', 19, lo, hi)
            a = spec.pack(t.var('s', 1), e, t.var('f', 236))
            r = Run(entry, [('w', a)])
            cu = []
            sp = specf(a, cu)
            bad = t.or_(t.not_(cmp(r.res, sp)), r.panic)
            return decide('%s e=%d..%d' % (name, lo - BIAS, hi - BIAS), [r],
                          bad, cuts=cu, expected=sp, timeout=250,
                          gen=gen, **kw)
        out.append(Case('%s e=%d..%d' % (name, lo - BIAS, hi - BIAS), fn, 2))
    return out


def same_num(x, y):
    """equal as numbers (the sign of a zero is left open), or both NaN"""
    return t.or_(spec.same(x, y),
                 t.and_(spec.F(x).zero, spec.F(y).zero))


@check('P14', 'floor, ceil, round, round_tie_even', ALL1)
def p14(tier):
    cs = []
    for nm, mode in (('h_floor', 'floor'), ('h_ceil', 'ceil'),
                     ('h_round', 'round'), ('h_rte', 'rte')):
        cs += split_e(nm, nm, lambda a, c, m=mode: int_round(a, m, c),
                      same_num)
    return cs


@check('P15', 'trunc, fract, split', ALL1)
def p15(tier):
    cs = split_e('h_trunc', 'h_trunc', lambda a, c: int_round(a, 'trunc', c),
                 same_num)

    def frac(a, cuts=None):
        """a - trunc(a), exact"""
        f = spec.F(a)
        small = t.ult(f.e, t.const(BIAS, 19))
        big = t.ule(t.const(BIAS + 236, 19), f.e)
        k = t.resize(t.ite(t.or_(small, big), t.const(0, 19), t.sub(
            t.const(BIAS + 236, 19), f.e)), 256)
        sig = t.zext(f.sig, 256)
        m = t.sub(sig, t.shl(t.lshr(sig, k), k))
        m = t.trunc(m, 237)
        if cuts is not None:
            cuts.append(m)
        r = spec.round_pack(f.s, m, t.zext(f.e, 24))
        z = t.const(0, 256)
        return t.ite(t.or_(f.nan, f.inf), spec.NAN,
                     t.ite(big, z, t.ite(small, a, r)))
    cs += split_e('h_fract', 'h_fract', lambda a, c: frac(a, c), same_num)

    def fsplit():
        a = V()
        r = Run('h_split', [('w', a)], outs=(64,))
        i, f = t.extract(r.res, 511, 256), t.extract(r.res, 255, 0)
        r1, r2 = Run('h_trunc', [('w', a)]), Run('h_fract', [('w', a)])
        return decide('split = (trunc, fract)', [r, r1, r2], t.disj(
            t.not_(spec.same(i, r1.res)), t.not_(spec.same(f, r2.res)),
            r.panic))
    cs.append(Case('split', fsplit))
    return cs


@check('P16', 'unit in the last place', ALL1)
def p16(tier):
    def sp(a):
        f = spec.F(a)
        # quantum 2^(q - BIAS - 236): normal if its exponent field is >= 1
        e = t.sub(t.zext(f.q, 24), t.const(236, 24))
        r = spec.round_pack(t.FALSE, t.const(1, 8),
                            t.zext(f.q, 24))
        return t.ite(f.nan, spec.NAN, t.ite(f.inf, spec.NAN, r))
    return [un_case('ulp', 'h_ulp', sp)]


# ---- integers and floats --------------------------------------------------
@check('P17', 'conversion from integers',
       'none: every value of every primitive integer type')
def p17(tier):
    cs = []
    for w in (8, 16, 32, 64, 128):
        for sg in (0, 1):
            nm = 'h_from_%s%d' % ('ui'[sg], w)

            def fn(w=w, sg=sg, nm=nm):
                x = t.var('x', w)
                r = Run(nm, [('w', x)] if w == 128 else [('v', x)])
                s = t.extract(x, w - 1, w - 1) if sg else t.FALSE
                m = t.ite(s, t.neg(x), x)
                sp = spec.round_pack(s, m, t.const(BIAS + 236, 24))
                return decide(nm, [r], t.or_(t.ne(r.res, sp), r.panic),
                              expected=sp)
            cs.append(Case(nm, fn))
    return cs


@check('P18', 'conversion from f32 and f64',
       'none: every 32-bit and every 64-bit pattern')
def p18(tier):
    cs = []
    for nm, w, eb in (('h_from_f32', 32, 8), ('h_from_f64', 64, 11)):
        def fn(nm=nm, w=w, eb=eb):
            x = t.var('x', w)
            fb = w - 1 - eb
            s = t.extract(x, w - 1, w - 1)
            e = t.extract(x, w - 2, fb)
            f = t.extract(x, fb - 1, 0)
            bias = (1 << (eb - 1)) - 1
            ez = t.eq(e, t.const(0, eb))
            em = t.eq(e, t.const(t.mask(eb), eb))
            fz = t.eq(f, t.const(0, fb))
            sig = t.concat(t.not_(ez), f)
            q = t.zext(t.ite(ez, t.const(1, eb), e), 24)
            r = Run(nm, [('v', x)])
            # value = sig * 2^(q - bias - fb)
            sp = spec.round_pack(s, sig, t.add(q, t.const(
                BIAS + 236 - bias - fb, 24)))
            sp = t.ite(em, t.ite(fz, spec.signed(s, spec.INF), spec.NAN),
                       sp)
            return decide(nm, [r], t.or_(t.not_(spec.same(r.res, sp)),
                                         r.panic), expected=sp)
        cs.append(Case(nm, fn))
    return cs


@check('P23', 'operator forms agree', ALL2)
def p23(tier):
    """x op y, &x op y, x op &y, &x op &y, x op= y and x op= &y are the same
    function: the called kernel is identical, decided by hash-consing"""
    cs = []
    for op in ('add', 'sub', 'mul', 'div', 'rem'):
        for f in ('rv', 'vr', 'rr', 'av', 'ar'):
            cs.append((op, f))

    def opaque(memo, names):
        """Calls of the kernel become uninterpreted functions of the values
        they receive: same arguments, same result."""
        def hook(ex, name, args, st):
            if not ex.stack:
                return None
            key = [name]
            for x in args:
                if isinstance(x, t.T):
                    key.append(x.id)
                    continue
                (g, o, off), = x.alts
                n = ex.objs[o].size
                cells = ex._cells(st.mem, o)
                key.append((ex.read(st.mem, o, 0, n).id if cells else 'new',
                            n, off.id))
            key = tuple(key)
            names.append(name)
            mem = dict(st.mem)
            for j, x in enumerate(args):
                if not isinstance(x, t.T):
                    o = x.alts[0][1]
                    n = ex.objs[o].size
                    for i in range(0, n, 16):
                        m = min(16, n - i)
                        v = memo.setdefault((key, j, i),
                                            t.fresh('callee', 8 * m))
                        ex.write(mem, o, i, v, m)
            return None, S.State(st.pc, st.env, mem, st.facts)
        return hook

    def mk(op, f):
        nm = 'h_%s_%s' % (op, f)

        def fn():
            a, b = V('a'), V('b')
            ins = [('w', a), ('w', b)]
            if core.B.mod.func('@h_' + op) is core.B.mod.func('@' + nm):
                r0 = Run('h_' + op, ins, hook=opaque({}, []))
                vs = core.patterns([a, b], 8, 1, rel_gen)
                return dict(case=nm + ' (compiled to the same code)',
                            verdict='unsat', secs=0, trivial=True,
                            functions=sorted(r0.ex.funcs_seen),
                            insts=r0.ex.insts, witnesses=len(vs))
            if op in ('add', 'sub', 'mul'):
                r0, r1 = Run('h_' + op, ins), Run(nm, ins)
                return decide(nm, [r0, r1], t.or_(t.ne(r0.res, r1.res),
                                                  t.ne(r0.panic, r1.panic)),
                              gen=rel_gen)
            memo, names = {}, []
            r0 = Run('h_' + op, ins, hook=opaque(memo, names))
            r1 = Run(nm, ins, hook=opaque(memo, names))
            rec = dict(case=nm, functions=sorted(
                set(r0.ex.funcs_seen) | set(r1.ex.funcs_seen) | set(names)),
                insts=r0.ex.insts + r1.ex.insts, witnesses=2)
            goal = t.or_(t.ne(r0.res, r1.res), t.ne(r0.panic, r1.panic))
            k, env = smt.check([goal], timeout=100)
            rec.update(verdict=k, q_queries=1)
            if k == 'sat':
                # the kernels are abstract: look for a concrete witness among
                # the model and the stimuli
                envs = [env] + core.patterns([a, b], 400, 5, rel_gen)
                c0 = [r0.calldata(e) for e in envs]
                c1 = [r1.calldata(e) for e in envs]
                for e, p, q, x, y in zip(envs, c0, c1, core.B.native(c0),
                                         core.B.native(c1)):
                    if x != y:
                        rec['replay'] = dict(
                            case=nm, reproduced=True, expected=None,
                            env={k: hex(v) for k, v in e.items()},
                            calls=['%s -> %s' % (core.hexcall(c), z if
                                   isinstance(z, str) else hex(
                                       r0.natout(z)[1][0]))
                                   for c, z in ((p, x), (q, y))])
                        return rec
                rec['verdict'] = 'unknown'
            return rec
        return Case(nm, fn)
    return [mk(*c) for c in cs]
