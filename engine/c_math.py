"""Checks: special operands of the elementary functions."""
import core
import guide
import spec
import terms as t
from c_arith import CHECKS, check, decide_guided  # noqa: F401
from core import Case, Run


def pi_bits(n):
    """floor(pi * 2^n), by Machin's formula"""
    one = 1 << (n + 64)

    def atan_inv(k):
        r = p = one // k
        i = 1
        while p:
            p //= k * k
            i += 2
            r += -(p // i) if i & 2 else p // i
        return r
    return (4 * (4 * atan_inv(5) - atan_inv(239))) >> 64


def round237(num, e):
    """pattern of num * 2^e (num > 0), rounded to nearest"""
    k = num.bit_length() - 237
    q, r = num >> k, num & t.mask(k)
    assert abs(r - (1 << (k - 1))) > 1 << 20     # far from a tie
    q += r >> (k - 1)
    return ((spec.BIAS + e + k + 236) << 236) + (q - (1 << 236))


PI_N = pi_bits(600)
PI = round237(PI_N, -600)
PI_2 = round237(PI_N, -601)
PI_4 = round237(PI_N, -602)
PI3_4 = round237(3 * PI_N, -602)
ONE = spec.BIAS << 236
INF = spec.EMAXF << 236


def c(x):
    return t.const(x, 256)


def same_num(a, b):
    """NaN for NaN, otherwise the same pattern up to the sign of a zero"""
    z = t.and_(spec.F(a).zero, spec.F(b).zero)
    return t.or_(spec.same(a, b), z)


def case(name, entry, n, asmf, expf, gen, out=32, cmp=same_num, havoc=True):
    def fn():
        vs = [t.var(v, 256) for v in 'ab'[:n]]
        asm = [asmf(*vs)]
        g = guide.Guide(asm, core.patterns(vs, 300, core.hash_name(name),
                                           gen), [], inputs=vs)
        r = Run(entry, [('w', v) for v in vs], outs=(out,), guide=g)
        ex = expf(*vs)
        if out == 64:
            bad = t.or_(t.not_(cmp(t.extract(r.res, 511, 256), ex[0])),
                        t.not_(cmp(t.extract(r.res, 255, 0), ex[1])))
            ex = t.concat(*ex)
        else:
            bad = t.not_(cmp(r.res, ex))
        return decide_guided(name, [r], t.or_(bad, r.panic), g, [], ex,
                             havoc=havoc)
    return Case(name, fn, 1)


def g_special(R):
    def one():
        v = R.choice([0, INF, INF | 1 << R.randrange(236), INF | 1 << 235,
                      INF | R.getrandbits(236)])
        return v | R.getrandbits(1) << 255
    return dict(a=one(), b=one())


def g_nonpos(R):
    v = g_special(R)
    if R.randrange(2):
        v['a'] = core.rnd_float(R) | 1 << 255
    return v


def g_large(R):
    v = g_special(R)
    if R.randrange(2):
        v['a'] = (ONE + R.choice([1, 1 << 128, R.getrandbits(238), R.randrange(
            INF - ONE)])) | R.getrandbits(1) << 255
    return v


def signed(a, k):
    return t.concat(t.extract(a, 255, 255), t.const(k, 255))


@check('P24', 'Special operands of the elementary functions',
       'sqrt, ln, log2, log10, sin, cos, tan, sin_cos, asin, acos and atan at '
       'every NaN, infinity and zero, at every operand outside the domain, '
       'and asin, acos, atan at -1 and 1',
       outside='log and ln_1p, which are unimplemented in the code; the sign '
       'of a zero result, except for sqrt; atan2')
def p24(tier):
    sp = lambda a: spec.F(a).special
    F = spec.F
    nan = lambda a: c(spec_nan)
    spec_nan = INF | 1 << 235
    ite = t.ite
    fin0 = lambda v: lambda a: ite(F(a).zero, c(v), c(spec_nan))
    cs = [case('sqrt: negative or special', 'h_sqrt', 1,
               lambda a: t.or_(sp(a), F(a).s),
               lambda a: ite(t.or_(F(a).zero, t.eq(a, c(INF))), a,
                             c(spec_nan)), g_nonpos, cmp=spec.same)]
    for f in ('ln', 'log2', 'log10'):
        cs.append(case(f + ': not positive or special', 'h_' + f, 1,
                       lambda a: t.or_(sp(a), F(a).s), nan, g_nonpos))
    for f, v in (('sin', 0), ('cos', ONE), ('tan', 0)):
        cs.append(case(f + ': special', 'h_' + f, 1, sp, fin0(v), g_special))
    cs.append(case('sin_cos: special', 'h_sincos', 1, sp,
                   lambda a: (fin0(0)(a), fin0(ONE)(a)), g_special, out=64))
    for f in ('asin', 'acos'):
        cs.append(case(f + ': outside [-1, 1]', 'h_' + f, 1,
                       lambda a: t.ult(t.resize(c(ONE), F(a).abs.w), F(a).abs), nan, g_large))
    one = lambda a: t.eq(F(a).abs, t.resize(c(ONE), F(a).abs.w))
    g1 = lambda R: dict(a=ONE | R.getrandbits(1) << 255)
    cs.append(case('asin: 1', 'h_asin', 1, one, lambda a: signed(a, PI_2), g1))
    cs.append(case('acos: 1', 'h_acos', 1, one, lambda a: ite(
        F(a).s, c(PI), c(0)), g1))
    cs.append(case('atan: 1', 'h_atan', 1, one, lambda a: signed(a, PI_4), g1))
    g0 = lambda R: dict(a=R.getrandbits(1) << 255)
    zero = lambda a: F(a).zero
    cs.append(case('asin: 0', 'h_asin', 1, zero, lambda a: a, g0))
    cs.append(case('atan: special', 'h_atan', 1, sp, lambda a: ite(
        F(a).inf, signed(a, PI_2), ite(F(a).zero, a, c(spec_nan))),
        g_special))
    return cs


@check('P27', 'atan2 of special operands and on the diagonals',
       'operand pairs with a NaN, an infinity or a zero, and finite pairs '
       'with |x| = |y|; the sign of a zero result is not decided',
       outside='all other operand pairs')
def p27(tier):
    F = spec.F
    ite = t.ite

    def special(y, x):
        Y, X = F(y), F(x)
        sg = lambda k: t.concat(Y.s, t.const(k, 255))
        both = ite(X.s, sg(PI3_4), sg(PI_4))
        r = ite(X.zero, ite(Y.zero, c(0), sg(PI_2)),
                ite(Y.zero, ite(X.s, c(PI), c(0)),
                    ite(t.and_(X.inf, Y.inf), both, ite(
                        Y.inf, sg(PI_2), ite(X.s, sg(PI), sg(0))))))
        return ite(t.or_(X.nan, Y.nan), c(INF | 1 << 235), r)

    def gen(R):
        v = g_special(R)
        if R.randrange(2):
            v[R.choice('ab')] = core.rnd_float(R)
        return v

    def gd(R):
        a = core.rnd_float(R)
        return dict(a=a, b=a & t.mask(255) | R.getrandbits(1) << 255)
    return [case('atan2: special', 'h_atan2', 2, lambda y, x: t.or_(
        F(y).special, F(x).special), special, gen),
        case('atan2: |x| = |y|', 'h_atan2', 2, lambda y, x: t.conj(
            t.eq(F(x).abs, F(y).abs), t.not_(F(x).special)),
            lambda y, x: t.concat(F(y).s, ite(F(x).s, t.const(
                PI3_4, 255), t.const(PI_4, 255))), gd, havoc=False)]
