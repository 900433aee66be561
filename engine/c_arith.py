"""Checks: correctly rounded arithmetic."""
import os
import sys
import time

import absr
import core
import guide
import ref
import smt
import spec
import terms as t
from core import Case, Run, decide
from c_basic import V, exact, rel_gen, same_num, ALL1, ALL2, ALL3  # noqa: F401

CHECKS = {}
NS = ('normal', 'subnormal')


def check(pid, title, bounds, outside='', deadline=600, **kw):
    def deco(f):
        CHECKS[pid] = dict(pid=pid, title=title, make=f, bounds=bounds,
                           outside=outside, deadline=deadline, **kw)
        return f
    return deco


def rf(R):
    return R.choice([0, 1, R.getrandbits(236), (1 << 236) - 1,
                     R.getrandbits(236) >> R.randrange(236),
                     ((1 << 236) - 1) ^ ((1 << R.randrange(236)) - 1),
                     R.getrandbits(236) & ~t.mask(R.randrange(236))])


# ---- addition and subtraction ---------------------------------------------
def add_case(name, d0, d1, rel, low, timeout=250, weight=2.0, entry='h_add'):
    """A + B, exponent of A minus exponent of B in d0..d1.  low: B has the
    exponent field 0 (subnormal or zero; A then has the field 1 + d, or 0 if
    low == 2)"""
    def fn():
        s = t.var('s', 1)
        fa, fb = t.var('fa', 236), t.var('fb', 236)
        d = smt.rvar('d', 24, d0, d1)
        asm = []
        if low:
            ea = t.const(0, 19) if low == 2 else \
                t.trunc(t.add(d, t.const(1, 24)), 19)
            eb = t.const(0, 19)
        else:
            e = smt.rvar('e', 24, 1, 0x7fffe - d0)
            asm = [t.ule(t.add(e, d), t.const(0x7fffe, 24))]
            ea = t.trunc(t.add(e, d), 19)
            eb = t.trunc(e, 19)
        A = spec.pack(s, ea, fa)
        B = spec.pack(t.xor(s, t.const(rel, 1)), eb, fb)
        r = Run(entry, [('w', A), ('w', B)])
        cu = []
        sp = spec.fadd3(A, B, cu)
        bad = t.or_(t.not_(spec.same(r.res, sp)), r.panic)

        def gen(R):
            dd = R.choice([d0, d1, R.randint(d0, d1),
                           R.randint(d0, min(d1, d0 + 240))])
            hi = 0x7fffe - dd
            ee = R.choice([1, hi, R.randint(1, hi), min(hi, R.randint(1, 300))])
            a = rf(R)
            b = R.choice([rf(R), a, a ^ (1 << R.randrange(236)),
                          (a + R.choice([1, -1])) & t.mask(236)])
            return dict(d=dd, e=ee, fa=a, fb=b)
        return decide(name, [r], bad, assume=asm, cuts=cu, gen=gen,
                      expected=sp, timeout=timeout, npats=256)
    return Case(name, fn, weight)


def special2(name, entry, specf, sgn=False):
    """at least one operand NaN, infinite or zero"""
    def fn():
        a, b = V('a'), V('b')
        r = Run(entry, [('w', a), ('w', b)])
        sp = specf(a, b)
        x, y = spec.F(a), spec.F(b)
        cls = [0, spec.EMAXF << 236, spec.EMAXF << 236 | 1 << 235,
               spec.EMAXF << 236 | 1]

        def gen(R):
            z = [core.rnd_float(R), core.rnd_float(R)]
            for i in range(2):
                if R.randrange(2):
                    z[i] = R.choice(cls) | R.getrandbits(1) << 255
            if R.randrange(3) == 0:
                z[0] = R.choice(cls) | R.getrandbits(1) << 255
            return dict(a=z[0], b=z[1])
        return decide_abs(name, [r], t.or_(t.not_(spec.same(r.res, sp)),
                                           r.panic),
                          [t.or_(x.special, y.special)], [], gen, sp,
                          havoc=True, npats=512)
    return Case(name, fn)


def special1(name, entry, specf):
    def fn():
        a = V('a')
        r = Run(entry, [('w', a)])
        sp = specf(a)

        def gen(R):
            return dict(a=R.choice([0, spec.EMAXF << 236, spec.EMAXF << 236
                                    | R.getrandbits(236)])
                        | R.getrandbits(1) << 255)
        return decide_abs(name, [r], t.or_(t.not_(spec.same(r.res, sp)),
                                           r.panic),
                          [spec.F(a).special], [], gen, sp, havoc=True)
    return Case(name, fn)


def sadd(a, b):
    """sum when at least one operand is NaN, infinite or zero"""
    x, y = spec.F(a), spec.F(b)
    r = t.ite(y.zero, t.ite(x.zero, t.concat(t.and_(x.s, y.s),
                                             t.const(0, 255)), a), b)
    r = t.ite(t.or_(x.inf, y.inf), t.ite(x.inf, t.ite(t.and_(
        y.inf, t.ne(x.s, y.s)), spec.NAN, a), b), r)
    return t.ite(t.or_(x.nan, y.nan), spec.NAN, r)


@check('P06', 'addition and subtraction',
       'none: every pair of patterns, split into cases by the difference of '
       'the exponents (0, 1, 2..30, 31..127, 128..240, 241..524286), '
       'relative sign, and subnormal operands')
def p06(tier):
    cs = [special2('add: special operand', 'h_add', sadd),
          special2('sub: special operand', 'h_sub',
                   lambda a, b: sadd(a, spec.fneg(b)))]

    def fcomm(eq):
        a, b = V('a'), V('b')
        if eq:
            b = t.concat(t.var('t', 1), t.extract(a, 254, 0))
        r, q = Run('h_add', [('w', a), ('w', b)]), \
            Run('h_add', [('w', b), ('w', a)])
        x, y = spec.F(a), spec.F(b)

        def gen(R):
            d = rel_gen(R)
            if (d['a'] ^ d['b']) >> 255 and R.randrange(2):
                d['a'] ^= 1 << 255
            if d['a'] & t.mask(255) < d['b'] & t.mask(255):
                d['a'], d['b'] = d['b'], d['a']
            return d
        asm = [t.not_(x.special)]
        if not eq:
            asm += [t.not_(y.special), t.ult(y.abs, x.abs)]
        return decide('a + b = b + a (|a| %s |b|)' % '>='[eq], [r, q], t.disj(
            t.not_(spec.same(r.res, q.res)), t.xor(r.panic, q.panic)),
            gen=gen, assume=asm, timeout=250)
    cs.append(Case('commutes (equal magnitudes)', lambda: fcomm(1), 2))
    cs.append(Case('commutes', lambda: fcomm(0), 3))

    def fsub():
        a, b = V('a'), V('b')
        r = Run('h_sub', [('w', a), ('w', b)])
        q = Run('h_add', [('w', a), ('w', spec.fneg(b))])
        return decide('a - b = a + (-b)', [r, q], t.disj(t.not_(spec.same(
            r.res, q.res)), t.xor(r.panic, q.panic)), gen=rel_gen,
            timeout=250)
    cs.append(Case('sub', fsub, 3))
    for rel in (0, 1):
        for low in (0, 1):
            ds = [(0, 0), (1, 30), (31, 127), (128, 240), (241, 0x7fffd)]
            if rel:
                ds[1:2] = [(1, 1), (2, 30)]
            for d0, d1 in ds:
                nm = 'add: %s signs, exponent difference %d..%d%s' % (
                    ('same', 'opposite')[rel], d0, d1,
                    ', subnormal' if low else '')
                cs.append(add_case(nm, d0, d1, rel, low, weight=2 + rel))
        cs.append(add_case('add: %s signs, both subnormal' % (
            'same', 'opposite')[rel], 0, 0, rel, 2))
    return cs


# ---- multiplication ---------------------------------------------------------
def norm256(f):
    """significand shifted so that bit 255 is set, and its shift count"""
    x = t.concat(f.sig, t.const(0, 19))
    z = t.clz(x)
    return t.shl(x, z), z


def smul(a, b):
    x, y = spec.F(a), spec.F(b)
    s = t.xor(x.s, y.s)
    r = t.ite(t.or_(x.zero, y.zero), t.const(0, 256), spec.INF)
    r = spec.signed(s, r)
    bad = t.disj(x.nan, y.nan, t.and_(x.zero, y.inf), t.and_(x.inf, y.zero))
    return t.ite(bad, spec.NAN, r)


def normal_axioms(v):
    return [t.extract(v, 255, 255), t.eq(t.extract(v, 18, 0),
                                         t.const(0, 19))]


def prod_axioms(v):
    """product of two values in [2^255, 2^256) that are multiples of 2^19"""
    return [t.ule(t.const(1 << 510, 512), v),
            t.ule(v, t.const(t.mask(256 - 19) ** 2 << 38, 512)),
            t.eq(t.extract(v, 37, 0), t.const(0, 38))]


def squeeze(p, w):
    """leading w bits of p, and whether a bit is lost"""
    n = p.w - w
    return t.extract(p, p.w - 1, n), spec.or_reduce(t.extract(p, n - 1, 0))


def fmul(a, b, parts=None, cuts=None):
    """correctly rounded product of nonzero finite values"""
    x, y = spec.F(a), spec.F(b)
    nx, zx = norm256(x)
    ny, zy = norm256(y)
    p = t.mul(t.zext(nx, 512), t.zext(ny, 512))
    if parts is not None:
        parts += [nx, ny, p]
    m, st = squeeze(p, 242)
    # nx = sig * 2^(19 + zx): value = p * 2^(qx + qy - 38 - zx - zy - ...)
    EW = 24
    z = lambda v: t.resize(v, EW)
    e = t.sub(t.add(t.zext(x.q, EW), t.zext(y.q, EW)), t.add(z(zx), z(zy)))
    # significand units: value = sig * 2^(q - BIAS - 236)
    # p * 2^(e - 38) * 2^-(2*(BIAS+236)); m = p >> 270
    e = t.add(e, t.const(270 - 38 - (spec.BIAS + 236), EW))
    return spec.round_norm(t.xor(x.s, y.s), m, e, st, cuts=cuts)


def decide_abs(name, runs, bad, asm, steps, gen, expected, timeout=250,
               npats=256, cuts=(), refine=(), havoc=False):
    """decide with abstraction steps; a model of the abstraction is not a
    counterexample, the refinements (extra assumptions that make the exact
    query easy) are searched for a real one"""
    t0 = time.time()
    st0 = dict(smt.STATS)
    vs = t.variables([bad] + list(asm))
    pats = core.patterns(vs, npats, core.hash_name(name), gen)
    order = t.topo(list(asm) + [bad])
    good = []
    for p in pats:
        v = t.evaluate(list(asm) + [bad], p, order)
        if not all(v[:-1]):
            continue
        good.append(p)
    rec = core.Res(case=name, nodes=len(order), functions=sorted(set(
        f for r in runs for f in r.ex.funcs_seen)),
        insts=sum(r.ex.insts for r in runs), witnesses=len(good))
    lost = t.disj(*[r.lost for r in runs])
    goal = t.or_(bad, lost)
    if not good:
        raise core.CheckError('%s: no stimulus satisfies the assumptions'
                              % name)
    rec['validated'] = core.validate(runs, good[:6])

    def done(k):
        rec['verdict'] = k
        rec['secs'] = round(time.time() - t0, 2)
        for q in ('queries', 'sat', 'unsat', 'unknown', 'solver_s',
                  'build_s'):
            rec['q_' + q] = smt.STATS[q] - st0.get(q, 0)
        return rec

    for p in good:
        if t.evaluate([bad], p, order)[0]:
            # the obligation is refuted by a stimulus already
            rec['replay'] = core.replay(name, runs, bad, p, expected)
            return done('sat')
    log = []

    def lg(x):
        log.append(x)
        if os.environ.get('ABS_V'):
            print('%s: %s' % (name, x), file=sys.stderr, flush=True)
    lg('start %.1f s' % (time.time() - t0))
    goal, = absr.prune([goal], list(asm), good)
    lg('pruned %.1f s' % (time.time() - t0))
    roots, extra, penv = absr.apply(
        steps, [goal] + list(cuts), list(asm), good, log=lg)
    rec['abstraction'] = log
    free = []
    if havoc:
        mm = {}
        for x in t.topo(roots):
            if x.op == 'mul':
                mm[x.id] = t.fresh('product', x.w)
                free.append(x)
        if mm:
            vals = [t.evaluate(free, e) for e in penv]
            roots = t.substitute(roots, mm)
            for e, v in zip(penv, vals):
                e.update({mm[x.id].p: y for x, y in zip(free, v)})
    left = sum(x.op == 'mul' for x in t.topo(roots))
    rec['products_left'] = left
    used = set(x.p for x in t.variables(roots[:1]))
    k, env = smt.sweep(list(asm) + extra, roots[:1], timeout=timeout,
                       pats=penv, cuts=roots[1:])
    if k == 'unsat':
        return done(k)
    if k == 'sat' and not any(s.name in used for s in steps) and \
            not any(n.startswith('product!') for n in used):
        for v in vs:
            env.setdefault(v.p, smt.RANGES.get(v.p, (0, 0))[0])
        rec['replay'] = core.replay(name, runs, bad, env, expected)
        return done('sat')
    rec['abstract_model'] = k
    for ref in refine:
        k, env = smt.check(list(asm) + core.range_terms(vs) + ref
                           + [goal], timeout=timeout / 6)
        if k == 'sat':
            for v in vs:
                env.setdefault(v.p, smt.RANGES.get(v.p, (0, 0))[0])
            rec['replay'] = core.replay(name, runs, bad, env, expected)
            return done('sat')
    return done('unknown')


def decide_guided(name, runs, bad, g, steps, expected, timeout=250, cuts=(),
                  refine=(), havoc=False):
    """decide for runs made with guide g: its rules' variables stand for
    their terms, so a model is a counterexample only if it is one with the
    terms in place"""
    t0 = time.time()
    st0 = dict(smt.STATS)
    asm = list(g.assume) + list(g.extra) + g.facts
    good = g.good()
    if not good:
        raise core.CheckError('%s: no stimulus satisfies the assumptions'
                              % name)
    order = t.topo(asm + [bad])
    rec = core.Res(case=name, nodes=len(order), functions=sorted(set(
        f for r in runs for f in r.ex.funcs_seen)),
        insts=sum(r.ex.insts for r in runs), witnesses=len(good))
    goal = t.or_(bad, t.disj(*[r.lost for r in runs]))
    rec['validated'] = core.validate(runs, good[:6])
    log = []

    def lg(x):
        log.append(x)
        if os.environ.get('ABS_V'):
            print('%s: %s' % (name, x), file=sys.stderr, flush=True)

    def done(k):
        rec['verdict'] = k
        rec['abstraction'] = log
        return core.finish(rec, t0, st0)

    lg('during execution: %d questions, %d decided; rules: %s' % (
        g.asked, g.decided, ' '.join('%s %d' % (
            r.var.p if r.var is not None else '-', r.hits)
            for r in g.rules)))
    for p in good:
        v = t.evaluate(asm + [bad], p, order)
        if not all(v[:-1]):
            raise core.CheckError('%s: an axiom is wrong: %s' % (name, p))
        if v[-1]:
            # the obligation is refuted by a stimulus already
            rec['replay'] = core.replay(name, runs, bad, p, expected)
            return done('sat')
    if goal is t.FALSE:
        rec['trivial'] = True
        return done('unsat')
    roots, extra, penv = absr.apply(steps, [goal] + list(cuts), asm, good,
                                    log=lg)
    free = []
    if havoc:
        mm = {}
        for x in t.topo(roots):
            if x.op == 'mul':
                mm[x.id] = t.fresh('product', x.w)
                free.append(x)
        if mm:
            vals = [t.evaluate(free, e) for e in penv]
            roots = t.substitute(roots, mm)
            for e, v in zip(penv, vals):
                e.update({mm[x.id].p: y for x, y in zip(free, v)})
    rec['products_left'] = sum(x.op == 'mul' for x in t.topo(roots))
    defs = []
    while True:
        left = timeout - (time.time() - t0)
        k, env = smt.sweep(asm + extra + [x for _, x in defs], roots[:1],
                           timeout=max(20, left), pats=penv, cuts=roots[1:])
        lg('%s %.1f s' % (k, time.time() - t0))
        if k == 'unsat':
            return done(k)
        if k != 'sat':
            break
        # definitions that the model violates
        new = []
        for r in g.rules:
            if r.var is None or r.how == 'lin':
                continue
            e = dict(env)
            for y in t.variables([r.term, r.var]):
                e.setdefault(y.p, smt.RANGES.get(y.p, (0, 0))[0])
            if t.evaluate([r.term], e)[0] != e[r.var.p] and not any(
                    q is r for q, _ in defs):
                new.append((r, t.eq(r.var, r.term)))
        if not new:
            break
        lg('defined: %s' % new[0][0].var.p)
        defs.append(new[0])
    rec['abstract_model'] = k
    names = set(r.var.p for r in g.rules if r.var is not None) | set(
        s.name for s in steps)
    real = g.unfold(list(g.assume) + [goal, bad])
    vs = t.variables(real)

    def final(env):
        env = dict(env)
        for v in vs:
            env.setdefault(v.p, smt.RANGES.get(v.p, (0, 0))[0])
        for r in g.rules:
            if r.var is not None:
                env[r.var.p] = t.evaluate([r.term], env)[0]
        if not all(t.evaluate(list(g.assume), env)):
            return None
        if not t.evaluate([goal], env)[0]:
            return None
        rec['replay'] = core.replay(name, runs, bad, env, expected)
        return True
    if k == 'sat' and final(env):
        return done('sat')
    if k == 'sat' and os.environ.get('ABS_V'):
        e = dict(env)
        for v in t.variables(list(roots[:1]) + [runs[0].res, expected]):
            e.setdefault(v.p, 0)
        print(' '.join('%s=%x' % i for i in sorted(e.items())), '\nres %x\nexp '
              '%x panic %d lost %d' % tuple(t.evaluate(
                  [runs[0].res, expected, runs[0].panic, runs[0].lost], e)),
              file=sys.stderr)
    for ref in refine:
        k, env = smt.check(real[:-2] + core.range_terms(vs) + ref
                           + [real[-2]], timeout=timeout / 6)
        if k == 'sat' and final(env):
            return done('sat')
    return done('unknown')


def mul_operand(n, sub):
    f = t.var('f' + n, 236)
    s = t.var('s' + n, 1)
    if sub:
        return spec.pack(s, t.const(0, 19), f), [t.ne(f, t.const(0, 236))]
    return spec.pack(s, smt.rvar('e' + n, 19, 1, 0x7fffe), f), []


def gen_mul(R):
    """operands with interesting products: sparse, near ties, near limits"""
    d = {}
    k = R.randrange(8)
    a, b = rf(R), rf(R)
    ex = R.randint(1, 0x7fffe)
    lim = R.choice([1, 0x7fffe, 1 - 237, 1 - 118, 1 - R.randrange(240)])
    ey = lim + 262143 - ex + R.choice([-2, -1, 0, 1, 2])
    if not 1 <= ey <= 0x7fffe:
        ey = R.randint(1, 0x7fffe)
    if k < 3:
        a = 1 << R.randrange(236) if k else 0
    if k == 3:
        i = R.randrange(1, 236)
        a = R.getrandbits(i) << (236 - i)
        i = R.randrange(1, 237 - i) if i < 236 else 1
        b = R.getrandbits(i) << (236 - i)
    return dict(fa=a, fb=b, ea=ex, eb=ey)


def few_bits(v, bits):
    return [t.eq(t.trunc(v, 236), t.const(bits, 236))]


def refinements(v):
    return [few_bits(v, b) for b in (0, 1 << 235, 1 << 118, 1, t.mask(236),
                                     1 << 105)]


REFINE = refinements(t.var('fb', 236))


def mul_case(name, entry, subx, suby, form='xy'):
    """form: arguments of the entry: 'xy', 'x' (square), 'xyz', 'xz' (fused
    with a zero addend)"""
    def fn():
        a, ax = mul_operand('a', subx)
        b, bx = mul_operand('b', suby) if 'y' in form else (a, [])
        m = [a, b] if 'y' in form else [a]
        if 'z' in form:
            m.append(t.concat(t.var('sc', 1), t.const(0, 255)))
        r = Run(entry, [('w', v) for v in m])
        parts = []
        cu = []
        sp = fmul(a, b, parts, cu)
        bad = t.or_(t.not_(spec.same(r.res, sp)), r.panic)
        steps = [absr.Step(parts[0], 'NX', 'sat', normal_axioms)]
        if a is not b:
            steps.append(absr.Step(parts[1], 'NY', 'sat', normal_axioms))
        steps.append(absr.Step(parts[2], 'PROD', 'lin', prod_axioms))

        def gen(R):
            d = gen_mul(R)
            if a is b:
                d['ea'] = R.choice([d['ea'], (d['ea'] + d['eb']) // 2])
            return d
        return decide_abs(name, [r], bad, ax + bx, steps, gen, sp,
                          refine=REFINE if a is not b else
                          refinements(t.var('fa', 236)), cuts=cu)
    return Case(name, fn, 3)


@check('P07', 'multiplication',
       'none: every pair of patterns; the product of the significands is '
       'identified as an integer polynomial of their digits')
def p07(tier):
    return [special2('mul: special operand', 'h_mul', smul)] + [
        mul_case('mul: %s x %s' % (NS[u], NS[v]), 'h_mul', u, v)
        for u in (0, 1) for v in (0, 1)]


# ---- fused operations -------------------------------------------------------
FW = 768


def norm237(f):
    n, z = norm256(f)
    return t.extract(n, 255, 19), z


class Fused:
    """round(+-P * 2^(ep) +- A * 2^qa) in fixed point: P is a nonzero 474-bit
    product (leading bit among the two highest), ep and qa the biased quanta
    of the units, d = qa - ep - 236 constrained to lo..hi by the caller.
    With d in -472..239 bit 512 of the words X and Y has the weight
    2^(ep + 510); a smaller addend counts as a sticky bit below the product's
    unit, a larger one makes the product a sticky bit (P < 2^476, the unit of
    the addend is 2^512)."""

    def __init__(self, sp, P, ep, sa, A, qa, lo, hi, rel, lt_known, normal, rules):
        EW = 24
        C = lambda v: t.const(v, EW)
        d = t.sub(t.sub(qa, ep), C(236))
        X = t.concat(t.zext(P, FW - 2), t.const(0, 2))
        top = t.concat(t.zext(A, FW - 512), t.const(0, 512))
        far = lo > 239
        if hi < -472:
            Y = t.const(1, FW)
        elif far:
            Y = top
        else:
            n = t.trunc(t.sub(C(274), d), 10)
            zb = max(0, 238 + lo)
            tb = min(FW, 474 + normal + hi)
            Y = t.extract(spec.jam(top, n), tb - 1, zb)
            pad = lambda v: t.zext(t.concat(v, t.const(0, zb)) if zb else v,
                                   FW)
            one = lambda v: t.shl(t.const(1, v.w), t.resize(t.add(
                d, C(474 - zb)), v.w))

            def ax(v):
                r = []
                if normal and 474 + lo >= 0:
                    r.append(spec.or_reduce(t.extract(
                        v, v.w - 1, max(0, 474 + lo - zb))))
                if lo != hi and lo >= -237:
                    # the leading bit is at 474 + d, or below
                    if normal:
                        r.append(t.ule(one(v), v))
                    else:
                        r.append(t.ult(v, one(v)))
                return r
            rules.append(guide.Rule(Y, 'YSH', axioms=ax, wide=pad))
            Y = rules[-1].pat
        self.lt = lt = t.ult(X, Y)
        if lt_known is not None:
            lt = t.const(lt_known, 1)
        if hi < -472 and not rel:
            M = t.concat(t.extract(X, FW - 1, 2), t.const(1, 2))
        else:
            M = t.ite(t.const(rel, 1), t.ite(lt,   t.sub(Y, X), t.sub(X, Y)), t.add(X, Y))
        mb = 477
        if hi >= -472 and not far:
            mb = max(476, tb) + 1 if not rel else tb if lt_known else 476
            if rel and lt_known is None:
                mb = max(476, tb)
        if not far and not (hi < -472 and not rel):
            # the low zero bits of Y leave those of X (or its negation)
            kb = zb if hi >= -472 and not (rel and lt_known is not False) \
                else 0
            xl = t.extract(X, kb - 1, 0) if kb else None
            M = t.extract(M, mb - 1, kb)
            pad2 = lambda v: t.zext(t.concat(v, xl) if kb else v, FW)
            lb = 474 + max(lo, 0) * normal if not rel else \
                473 + lo if lo >= 3 and normal else \
                473 if hi <= -2 else 239 if lo == 2 and normal else 0
            ax = lambda v: [spec.or_reduce(t.extract(v, v.w - 1, lb - kb))] \
                if lb > kb else [spec.or_reduce(v)] \
                if rel and (hi < 0 or lt_known) else []
            rules.append(guide.Rule(M, 'SUM', axioms=ax, wide=pad2))
            M = rules[-1].pat
        e0 = t.sub(qa, C(512)) if far else t.sub(ep, C(2))
        # exponent field of the result if it is normal
        lz = t.trunc(t.clz(M), EW)
        ef = t.sub(t.add(e0, C(FW - 1 - 236)), lz)
        self.low = low = t.slt(ef, C(1))
        # the shift that puts the unit of the result at bit 512 is lz - 19
        # for a normal result, fixed for a subnormal one
        sl = t.trunc(t.add(e0, C(511)), 10)
        sn = t.trunc(t.sub(lz, C(19)), 10)
        self.wild = t.conj(low, t.not_(t.ult(t.add(e0, C(511)), C(FW))))
        sh = lambda n: t.shl(M, t.zext(n, FW))
        # a sum with a normal addend is normal
        nolow = normal and not rel
        mix = sn if nolow else t.ite(low, sl, sn)
        self.mix = mix
        if nolow:
            low = t.FALSE
            self.wild = t.FALSE
        S = sh(mix)
        if not far:
            for v in (t.trunc(lz, 10), mix):
                rules.append(guide.Rule(t.zext(v, 32), how='affine', minw=7))
            # lower bound of the shift
            zl = max(0, min(FW - mb - 19, 274 - hi)) if hi >= -472 else 0
            zero = t.eq(M, t.const(0, FW))
            rules.append(guide.Rule(
                t.extract(S, FW - 1, zl), 'SHM', axioms=lambda v: [
                    t.disj(zero, self.wild, t.eq(
                        t.extract(v, v.w - 1, v.w - 20),
                        t.zext(t.not_(low), 20)))],
                wide=lambda v: t.concat(v, t.const(0, zl)) if zl else v))
            S = rules[-1].pat
        keep = t.extract(S, 748, 512)
        guard = t.extract(S, 511, 511)
        rest = spec.or_reduce(t.extract(S, 510, 0))
        up = t.and_(guard, t.or_(rest, t.extract(keep, 0, 0)))
        base = t.ite(low, C(0), t.sub(ef, C(1)))
        full = t.add(t.concat(base, t.const(0, 236)), t.zext(keep, EW + 236))
        full = t.add(full, t.zext(up, EW + 236))
        ovf = t.sle(C(spec.EMAXF), t.extract(full, EW + 235, 236))
        r = t.ite(ovf, t.trunc(spec.INF, 255), t.extract(full, 254, 0))
        r = t.concat(t.ite(lt, sa, sp), r)
        self.res = t.ite(t.eq(M, t.const(0, FW)), t.const(0, 256), r)


def wide_product(v):
    return t.zext(t.concat(v, t.const(0, 38)), 800)


def wide_norm(v):
    return t.zext(t.concat(v, t.const(0, 19)), 384)


def prod474(v):
    return [t.ule(t.const(1 << 472, 474), v),
            t.ule(v, t.const(t.mask(237) ** 2, 474))]


def gen_fused(R, subx, suby, suba, lo, hi, square=False, free=False):
    """operands with d = qa - ep - 236 in lo..hi; None if there are none"""
    for _ in range(200):
        fa, fb, fc = rf(R), rf(R), rf(R)
        k = R.randrange(8)
        pf = None
        if k < 2:
            fa = 1 << R.randrange(236) if k else 0
        if 2 <= k < 5:
            i = R.randrange(1, 236)
            fa = R.getrandbits(i) << (236 - i)
            j = R.randrange(1, 236)
            fb = R.getrandbits(237 - i) << (i - 1)
            if k == 3:
                fb = R.getrandbits(j) << (236 - j)
        if square:
            fb = fa
        if subx and not fa or suby and not fb:
            continue
        px = fa if subx else fa | 1 << 236
        py = fb if suby else fb | 1 << 236
        zx, zy = 237 - px.bit_length(), 237 - py.bit_length()
        # addends that cancel, or that are next to it
        dd = R.choice([lo, hi, R.randint(lo, hi)])
        if lo <= 237 and hi >= 0 and R.randrange(2):
            p = (px << zx) * (py << zy)
            j = p.bit_length() - 237
            p >>= j
            c = (p + R.choice([0, 0, 0, 1, -1, 1 << R.randrange(236)])) \
                & t.mask(237)
            j -= 236
            if suba and R.randrange(2):
                i = R.randrange(237)
                c >>= i
                j += i
            if lo <= j <= hi:
                dd = j
                if not suba or c >> 236 == 0:
                    fc = c & t.mask(236)
        if not subx and not suby and not square and R.randrange(3) == 0:
            # a product near a multiple of 2^236
            fa |= 1
            px = fa | 1 << 236
            dl = R.choice([1, 3, R.randrange(16), R.getrandbits(
                R.randrange(1, 236))]) * R.choice([1, -1])
            fb = dl * pow(px, -1, 1 << 236) & t.mask(236)
            py = fb | 1 << 236
            p = px * py + (1 << 235)
            j = p.bit_length() - 237
            if lo <= j - 236 <= hi and not suba:
                fc = p >> j & t.mask(236)
                dd = j - 236
        elif free and max(lo, 0) <= min(hi, 237):
            # the product near the addend
            p = fc | (0 if suba else 1 << 236)
            z = 237 - p.bit_length()
            j = R.choice([z, z + 1])
            if lo <= j <= hi:
                dd = j
                p <<= 236 + j
                i = R.choice([R.randrange(470), R.randrange(233, 238)])
                p += R.choice([-1, 1]) * R.choice(
                    [1, R.randrange(1, 16), 1 << i, R.getrandbits(i)]) \
                    if R.randrange(16) else 0
                if 1 << 472 <= p <= t.mask(237) ** 2:
                    pf = p
        qa = 1 if suba else R.choice([1, 2, R.randint(1, 300),
                                      dd + 236 + R.randint(1, 4), 0x7fffe,
                                      R.randint(1, 0x7fffe),
                                      R.randint(1, 0x7fffe)])
        # qx + qy = ep + ..., ep = qa - 236 - d
        s = qa - 236 - dd + zx + zy + spec.BIAS + 236
        if subx and suby:
            qx = qy = 1
            qa = 2 - s + qa
            if not 1 <= qa <= (1 if suba else 0x7fffe):
                continue
        elif subx:
            qx, qy = 1, s - 1
        elif suby:
            qx, qy = s - 1, 1
        elif square:
            qx = qy = s // 2
        else:
            qx = R.choice([s // 2, R.randint(max(1, min(s - 1, 0x7fffe)),
                                             max(1, min(s - 1, 0x7fffe)))])
            if R.randrange(2):
                a, b = max(1, s - 0x7fffe), min(0x7fffe, s - 1)
                if a <= b:
                    qx = R.randint(a, b)
            qy = s - qx
        if not (1 <= qx <= 0x7fffe and 1 <= qy <= 0x7fffe):
            continue
        if suba and not fc:
            fc = 1
        r = dict(ea=qx, eb=qy, fa=fa, fb=fb, fc=fc, d=dd & 0xffffff)
        if pf:
            r['PROD'] = pf
        return r
    return {}


def fma_case(name, entry, subx, suby, suba, lo, hi, rel, lt=None, lowv=None,
             shift=None, weight=3, timeout=250, npats=400):
    """entry: h_fma(a, b, c), or h_sqadd(a, c)"""
    sq = entry != 'h_fma'

    def gen(R):
        d = gen_fused(R, subx, suby, suba, lo, hi, sq, R.randrange(2))
        if d:
            d['na'] = d['fa'] | 1 << 236
            d['nb'] = d['fb'] | 1 << 236
        return d

    def fn():
        EW = 24
        C = lambda v: t.const(v, EW)
        rules = []
        na = lambda v: [t.extract(v, 236, 236)]

        def operand(n, sub):
            if sub:
                return mul_operand(n, sub) + (None,)
            v = t.var('n' + n, 237)
            rules.append(guide.Rule(v, wide=wide_norm, minw=7))
            return spec.pack(t.var('s' + n, 1), smt.rvar(
                'e' + n, 19, 1, 0x7fffe), t.trunc(v, 236)), na(v), v
        a, asm, nx = operand('a', subx)
        if sq:
            b, ny = a, nx
        else:
            b, bx, ny = operand('b', suby)
            asm = asm + bx
        x, y = spec.F(a), spec.F(b)
        rs = lambda v: t.resize(v, EW)
        zx = zy = t.const(0, 8)
        if subx:
            nx, zx = norm237(x)
            rules.append(guide.Rule(nx, 'NX', 'sat', na, wide=wide_norm))
            nx = rules[-1].var
        if sq:
            ny, zy = nx, zx
        elif suby:
            ny, zy = norm237(y)
            rules.append(guide.Rule(ny, 'NY', 'sat', na, wide=wide_norm))
            ny = rules[-1].var
        P = t.mul(t.zext(nx, 474), t.zext(ny, 474))
        rules.append(guide.Rule(P, 'PROD', 'lin', prod474,
                                wide=wide_product, trusted=True))
        P = rules[-1].var
        ep = t.add(rs(x.q), rs(y.q))
        if subx:
            ep = t.sub(ep, rs(zx))
        if suby:
            ep = t.sub(ep, rs(zy))
        ep = t.sub(ep, C(spec.BIAS + 236))
        if lo == hi:
            d = t.const(lo & 0xffffff, EW)
        elif (lo < 0) == (hi < 0):
            d = smt.rvar('d', EW, lo & 0xffffff, hi & 0xffffff)
        else:
            d = t.var('d', EW)
            asm = asm + [t.sle(C(lo), d), t.sle(d, C(hi))]
        if not t.isc(d):
            rules.append(guide.Rule(t.sext(d, 32), how='affine', minw=7))
        qa = t.add(ep, t.add(d, C(236)))
        fc = t.var('fc', 236)
        if suba:
            asm = asm + [t.eq(qa, C(1)), t.ne(fc, t.const(0, 236))]
            ec = t.const(0, 19)
            qa = C(1)
            ep = t.sub(C(1 - 236), d)
        else:
            asm = asm + [t.sle(C(1), qa), t.sle(qa, C(0x7fffe))]
            ec = t.trunc(qa, 19)
        sp = t.xor(x.s, y.s)
        sc = t.xor(sp, t.const(rel, 1))
        c = spec.pack(sc, ec, fc)
        args = [a, c] if sq else [a, b, c]
        steps = []
        F = Fused(sp, P, ep, sc, spec.F(c).sig, qa, lo, hi, rel, lt,
                  not suba, rules)
        if lt is not None:
            asm = asm + [F.lt if lt else t.not_(F.lt)]
        if lowv is not None:
            asm = asm + [F.low if lowv else t.not_(F.low)]
        if shift is not None:
            asm = asm + [t.ule(t.const(shift[0], 10), F.mix),
                         t.ule(F.mix, t.const(shift[1], 10))]
        vs = [v for v in t.variables(args + asm) if v.p != 'PROD']
        g = guide.Guide(asm, core.patterns(vs, npats, core.hash_name(name),
                                           gen), rules, inputs=args)
        for i in range(30):
            if len(g.good()) >= 80:
                break
            for p in core.patterns(vs, 100, core.hash_name(name) + i + 1,
                                   gen):
                g.add(p, True)
        if not g.good():
            # perhaps there are no such operands
            t0 = time.time()
            st0 = dict(smt.STATS)
            k, _ = smt.sweep(asm + g.extra, [t.TRUE], timeout=timeout)
            if k != 'unsat':
                raise core.CheckError('%s: no stimulus' % name)
            rec = core.Res(case=name + ': no such operands', verdict=k,
                           functions=[], insts=0, witnesses=0)
            core.finish(rec, t0, st0)
            return rec
        r = Run(entry, [('w', v) for v in args], guide=g)
        bad = t.disj(t.not_(spec.same(r.res, F.res)), r.panic, F.wild)
        vb = 'a' if sq else 'b'
        vb = t.var('f' + vb, 236) if (subx if sq else suby) else \
            t.var('n' + vb, 237)
        low = g.rewrite(F.low)
        exp = F.res
        if t.isc(low):
            bad, exp = t.substitute([bad, exp], {F.low.id: low})
            g.extra.append(t.eq(F.low, low))
        return decide_guided(name, [r], bad, g, steps, exp,
                             refine=refinements(vb), timeout=timeout)
    return Case(name, fn, weight)


def sfma(a, b, c):
    """fused multiply-add when an operand is NaN, infinite or a product is
    zero, or (multiplicands finite) the addend is infinite"""
    p = smul(a, b)
    return sadd(p, c)


def special3(name, entry, sq):
    """at least one operand NaN or infinite or a multiplicand zero"""
    def case(kind):
        cname = name.replace('special', kind)

        def gen(R):
            d = {}
            e = spec.EMAXF << 236
            for n in 'abc':
                d[n] = core.rnd_float(R)
                if kind != 'NaN' and d[n] & t.mask(255) >= e:
                    d[n] = R.getrandbits(255) % e
                if not R.randrange(3):
                    d[n] = R.choice([0, 0 if kind == 'zero' else e])
            n = 'c' if kind == 'infinite addend' else R.choice(
                'abc' if kind == 'NaN' else 'ab')
            d[n] = 0 if kind == 'zero' else e
            if kind == 'NaN':
                d[n] |= R.choice([1, 1 << 235, R.getrandbits(236)])
            for n in 'abc':
                d[n] |= R.getrandbits(1) << 255
            return d

        def fn():
            a, c = V('a'), V('c')
            b = a if sq else V('b')
            x, y, z = spec.F(a), spec.F(b), spec.F(c)
            args = [a, c] if sq else [a, b, c]
            nan = t.disj(x.nan, y.nan, z.nan)
            inf = t.or_(x.inf, y.inf)
            zero = t.or_(x.zero, y.zero)
            if kind == 'NaN':
                asm, sp = [nan], spec.NAN
            elif kind == 'infinite multiplicand':
                asm, sp = [t.not_(nan), inf], sfma(a, b, c)
            elif kind == 'zero':
                asm, sp = [t.not_(nan), t.not_(inf), zero], sfma(a, b, c)
            else:
                asm, sp = [t.not_(t.disj(nan, inf, zero)), z.inf], c
            g = guide.Guide(asm, core.patterns(args, 600, core.hash_name(
                cname), gen), [], inputs=args)
            r = Run(entry, [('w', v) for v in args], guide=g)
            return decide_guided(cname, [r], t.or_(t.not_(spec.same(
                r.res, sp)), r.panic), g, [], sp, havoc=True)
        return Case(cname, fn, 5)
    return [case(k) for k in ('NaN', 'infinite multiplicand', 'zero',
                              'infinite addend')]


FAR = ((-600000, -473), (240, 600000))
FMA_QUICK = FAR[:1] + tuple((d, d) for d in (-472, -300, -241, -236, -100)) + (
    (-4, -2), (-1, -1), (0, 1), (2, 2), (3, 12), (60, 60), (150, 150),
    (239, 239)) + FAR[1:]
SUB_QUICK = FAR[:1] + ((-241, -241), (-100, -100), (-4, -2), (2, 2),
                       (3, 12), (239, 239)) + FAR[1:]
SQ_QUICK = FAR[:1] + ((-100, -100), (-4, -2), (2, 2)) + FAR[1:]


def ranges(tier, sub=0):
    """ranges of the exponent difference d"""
    if tier == 'square':
        return SQ_QUICK
    if tier == 'quick':
        return SUB_QUICK if sub else FMA_QUICK
    r = [(-600000, -473)]
    for a, b in ((-472, -243), (-242, -230), (-229, -5)):
        k = -(-(b - a + 1) // 24)
        r += [(a + i * (b - a + 1) // k, a + (i + 1) * (b - a + 1) // k - 1)
              for i in range(k)]
    r += [(-4, -2), (-1, -1), (0, 1), (2, 2), (3, 12), (13, 19)]
    r += [(i, i + 20) for i in range(20, 230, 21)]
    return r + [(230, 239), (240, 600000)]


def fused_cases(tier, what, entry, sub, quick_ops=True):
    """sub: which of the multiplicands are subnormal"""
    cs = []
    ops = ' x '.join(NS[u] for u in sub) if entry == 'h_fma' else \
        NS[sub[0]] + ' squared'

    def add(rel, sc, lo, hi, lt, shift=None):
        cs.append(fma_case(
            '%s: %s %s %s, d=%d..%d, |a| %s |x y|%s' % (
                what, ops, '+-'[rel], NS[sc], lo, hi, ('<=', '>')[lt],
                '' if shift is None else ', shift %d..%d' % shift),
            entry, sub[0], sub[-1], sc, lo, hi, rel, bool(lt), None, shift,
            weight=3 + (lo > 12) + (-500 < lo < -50)))
    for rel in (0, 1):
        for lo, hi in ranges(tier):
            for lt in (0, 1):
                if lo < 0 and lt or lo > 1 and not lt:
                    continue
                if rel and lo in (-1, 0, 2):
                    # cancellation of leading bits
                    for s in ((0, 511), (512, 767)):
                        add(rel, 0, lo, hi, lt, s)
                else:
                    add(rel, 0, lo, hi, lt)
        for lo, hi in ranges(tier, 1):
            for lt in (0, 1):
                if lo < 0 and lt or lo > 239 and not lt:
                    continue
                if lo > 2 and tier != 'thorough' and not lt and hi > 12:
                    continue
                add(rel, 1, lo, hi, lt)
    return cs


@check('P10', 'fused multiply-add',
       'quick: normal multiplicands, every addend, for the differences d of '
       'the quanta of addend and product (d = 0: units of equal weight) '
       '-600000..-473, -472, -300, -241, -236, -100, -4..12, 60, 150, 239, '
       '240..600000 (subnormal addend: a subset, SUB_QUICK); thorough: every '
       'd, and subnormal multiplicands for the quick ranges', deadline=840)
def p10(tier):
    cs = special3('fma: special operand', 'h_fma', False)
    cs += [mul_case('fma: normal x normal + 0', 'h_fma', 0, 0, 'xyz')]
    if tier != 'quick':
        cs += [mul_case('fma: %s x %s + 0' % (NS[u], NS[v]), 'h_fma', u, v,
                        'xyz') for u, v in ((0, 1), (1, 0), (1, 1))]
    cs += fused_cases(tier, 'fma', 'h_fma', (0, 0))
    if tier != 'quick':
        for s in ((1, 0), (0, 1)):
            cs += fused_cases('quick', 'fma', 'h_fma', s)
    return cs


# ---- sum of squares ---------------------------------------------------------
def sos_case(lo, hi, swap, sub=0, elo=0x20000, ehi=0x7fffe, timeout=250):
    """|x| >= |y|, x normal, y normal or subnormal, lo <= qx - qy <= hi,
    elo <= qx <= ehi (the sum is normal if elo >= 2^17)"""
    name = 'sum_of_squares: |x| %s |y|, %s, exponent difference %d..%d, ' \
        'exponent %x..%x' % (('>=', '<=')[swap], 'y subnormal' if sub
                             else 'normal', lo, hi, elo, ehi)

    def gen(R):
        fa, fb = rf(R), rf(R)
        k = R.randrange(6)
        if k < 2:           # the square of x is a tie
            i = R.choice([118, 119])
            fa = (R.getrandbits(i) | 1) << (236 - i)
        if k == 2:
            fa = R.getrandbits(8) << 228
        dd = R.choice([lo, hi, R.randint(lo, hi), min(hi, max(
            lo, R.randint(0, 260)))])
        lim = R.choice([0x3ffff, 0x3ffff + 0x1ffff, elo, elo, ehi])
        ea = lim + R.randint(-3, 3)
        if sub:
            ea = dd + 1
        ea = min(max(ea, dd + 1, elo), 0x7fffe, ehi)
        if sub:
            dd = ea - 1
        if not sub and dd == 0 and fb > fa:
            fa, fb = fb, fa
        if dd == 0 and fa == fb:
            fa |= 1
            fb = fa - swap
        r = dict(fa=fa, fb=fb or 1, ea=ea, d=dd)
        r['na'] = fa | 1 << 236
        r['nb'] = r['fb'] | 1 << 236
        if R.randrange(2):
            r['PX'] = R.randint(1 << 472, t.mask(237) ** 2)
            r['PY'] = R.randint(1 << 472, t.mask(237) ** 2)
            k = R.randrange(3)
            if k == 0:
                r['PX'] = 1 << 473 | (R.getrandbits(237) << 237 | 1 << 236
                                      ) & t.mask(473)
            if k == 1:
                r['PX'] = 1 << 472 | (R.getrandbits(237) << 236 | 1 << 235
                                      ) & t.mask(472)
            r['PX'] = min(r['PX'], t.mask(237) ** 2)
        return r

    def fn():
        EW = 24
        na, nb = t.var('na', 237), t.var('nb', 237)
        top = lambda v: t.extract(v, 236, 236)
        asm = [top(na)]
        d = t.const(lo, 19) if lo == hi else smt.rvar('d', 19, lo, hi)
        ea = t.const(elo, 19) if elo == ehi else smt.rvar('ea', 19, elo, ehi)
        rules = [guide.Rule(na, wide=wide_norm, minw=7)]
        if sub:
            fb = t.var('fb', 236)
            eb = t.const(0, 19)
            asm += [t.ne(fb, t.const(0, 236)),
                    t.eq(ea, t.add(d, t.const(1, 19)))]
            ny = t.zext(fb, 237)
        else:
            fb = t.trunc(nb, 236)
            rules.append(guide.Rule(nb, wide=wide_norm, minw=7))
            eb = t.sub(ea, d)
            asm += [top(nb), t.ult(d, ea)]
            if not lo:
                asm.append(t.implies(t.eq(d, t.const(0, 19)), (
                    t.ult if swap else t.ule)(nb, na)))
            ny = nb
        a = spec.pack(t.var('sa', 1), ea, t.trunc(na, 236))
        b = spec.pack(t.var('sb', 1), eb, fb)
        sq = lambda v: t.mul(t.zext(v, 474), t.zext(v, 474))
        rules.append(guide.Rule(sq(na), 'PX', 'lin', prod474,
                                wide=wide_product, trusted=True))
        px = rules[-1].var
        rules.append(guide.Rule(sq(ny), 'PY', 'lin', (lambda v: [
            t.ne(v, t.const(0, 474))]) if sub else prod474,
                                wide=wide_product, trusted=True))
        py = rules[-1].var
        if not t.isc(d):
            rules.append(guide.Rule(t.zext(d, 32), how='affine', minw=7))
        w = 495
        up = lambda v: t.concat(t.zext(v, w - 20), t.const(0, 20))
        wide = lambda v: t.zext(v, 600)
        rules.append(guide.Rule(spec.jam(up(py), t.concat(d, t.const(0, 1))),
                                'YSH', wide=wide, axioms=lambda v: [
            t.ult(v, t.const(1 << max(1, 494 - 2 * lo), w))]))
        q = rules[-1].var
        if lo == hi:
            q = rules.pop().term
        elif lo > 247:
            # only the sticky bit is left
            rules.pop()
            q = t.const(1, w)
        rules.append(guide.Rule(t.add(up(px), q), 'SUM', wide=wide,
                                axioms=lambda v: [t.ule(
                                    t.const(1 << 492, w), v)]))
        m = rules[-1].var
        # px * 2^(2 qx - 2 (BIAS + 236)) in units of 2^(-BIAS - 236)
        e = t.concat(t.zext(ea, EW - 1), t.const(0, 1))
        e = t.sub(e, t.const(20 + spec.BIAS + 236, EW))
        hi_ = t.extract(m, w - 1, w - 1)
        mm = t.ite(hi_, m, t.shl(m, t.const(1, w)))
        e = t.sub(e, t.zext(t.not_(hi_), EW))
        cu = []
        sp = spec.round_norm(t.FALSE, mm, e, t.FALSE, cuts=cu)
        args = [b, a] if swap else [a, b]
        vs = [v for v in t.variables(args + asm) if v.p not in (
            'PX', 'PY', 'YSH', 'SUM')]
        g = guide.Guide(asm, core.patterns(vs, 400, core.hash_name(name),
                                           gen), rules, inputs=args)
        r = Run('h_sos', [('w', v) for v in args], guide=g)
        bad = t.or_(t.not_(spec.same(r.res, sp)), r.panic)
        return decide_guided(name, [r], bad, g, [], sp, cuts=cu,
                             refine=refinements(na), timeout=timeout)
    return Case(name, fn, 4)


def special_sos():
    """an operand NaN, infinite or zero, or both subnormal"""
    def case(kind):
        name = 'sum_of_squares: %s operand' % kind

        def gen(R):
            c = [spec.EMAXF << 236, spec.EMAXF << 236 | 1, 0, 1, 1 << 200]
            k = [R.randrange(5), R.randrange(5)]
            k[R.randrange(2)] = dict(NaN=1, infinite=0, subnormal=3)[kind]
            if kind == 'subnormal':
                return dict(a=R.getrandbits(236) >> R.randrange(237),
                            b=R.getrandbits(236) >> R.randrange(237))
            return {n: R.choice([c[i], c[i] if kind != 'infinite' else
                                 R.getrandbits(255) % c[0]])
                    | R.getrandbits(1) << 255 for n, i in zip('ab', k)}

        def fn():
            a, b = V('a'), V('b')
            x, y = spec.F(a), spec.F(b)
            tiny = lambda v: t.eq(v.e, t.const(0, 19))
            nan = t.or_(x.nan, y.nan)
            asm, sp = dict(
                NaN=([nan], spec.NAN),
                infinite=([t.or_(x.inf, y.inf), t.not_(nan)], spec.INF),
                subnormal=([tiny(x), tiny(y)], t.const(0, 256)))[kind]
            g = guide.Guide(asm, core.patterns([a, b], 400, core.hash_name(
                name), gen), [], inputs=[a, b])
            r = Run('h_sos', [('w', a), ('w', b)], guide=g)
            return decide_guided(name, [r], t.or_(t.not_(spec.same(
                r.res, sp)), r.panic), g, [], sp, havoc=True)
        return Case(name, fn, 2)
    return [case(k) for k in ('NaN', 'infinite', 'subnormal')]


def sos_zero(swap):
    """x^2 + 0"""
    def fn():
        a, ax = mul_operand('a', 0)
        z = t.concat(t.var('sz', 1), t.const(0, 255))
        r = Run('h_sos', [('w', v) for v in ((z, a) if swap else (a, z))])
        parts = []
        cu = []
        sp = fmul(a, a, parts, cu)
        bad = t.or_(t.not_(spec.same(r.res, sp)), r.panic)
        steps = [absr.Step(parts[0], 'NX', 'sat', normal_axioms),
                 absr.Step(parts[2], 'PROD', 'lin', prod_axioms)]

        def gen(R):
            d = gen_mul(R)
            d['ea'] = R.choice([d['ea'], (d['ea'] + d['eb']) // 2])
            return d
        return decide_abs('sum_of_squares: %s zero' % 'yx'[swap], [r], bad,
                          ax, steps, gen, sp, cuts=cu,
                          refine=refinements(t.var('fa', 236)))
    return Case('sum_of_squares: %s zero' % 'yx'[swap], fn, 4)


def sos_cases(tier):
    far = (248, 0x7fffd)
    if tier == 'quick':
        r = [(d, d) for d in (0, 9, 10, 11, 100, 247)] + [far]
        rs = [(d, d) for d in (0, 11)] + [far]
        ds = (0, 100)
        es = (1, 40, 118, 119, 120)
    else:
        r = rs = [(d, d) for d in range(248)] + [far]
        ds = (0, 1, 10, 11, 40, 74, 100, 138, 200, 240, 247)
        es = range(1, 122)
    cs = special_sos() + [sos_zero(i) for i in (0, 1)[:1 + (
        tier != 'quick')]]
    z = 0x20000     # below: subnormal results
    for e in es:
        cs += [sos_case(d, d, 0, 0, z - e, z - e) for d in ds]
        cs.append(sos_case(z - e - 1, z - e - 1, 0, 1, z - e, z - e))
    for s in (0, 1):
        cs += [sos_case(lo, hi, s) for lo, hi in (r, rs)[s]]
        cs.append(sos_case(z - 1, 0x7fffd, s, 1))
    return cs


@check('P11', 'square, square_add and sum_of_squares',
       'square: none; square_add: normal operand, every addend, for the '
       'differences d (see P10) -600000..-473, -100, -4..-2, 2, '
       '240..600000; thorough: every d; sum_of_squares: exponent differences '
       '0, 9, 10, 11, 100 and all >= 247 for normal results, with '
       'the greater operand second 0, 11 and all >= 248; thorough: every '
       'difference; subnormal results: for the exponents and differences in '
       'sos_cases', deadline=840)
def p11(tier):
    cs = [mul_case('square: %s' % NS[u], 'h_square', u, u, 'x')
          for u in (0, 1)]
    cs += [special1('square: special operand', 'h_square',
                    lambda a: smul(a, a)),
           mul_case('square_add: normal, zero addend', 'h_sqadd', 0, 0, 'xz'),
           mul_case('square_add: subnormal, zero addend', 'h_sqadd', 1, 1,
                    'xz')]
    cs += special3('square_add: special operand', 'h_sqadd', True)
    return cs + fused_cases('square' if tier == 'quick' else tier,
                            'square_add', 'h_sqadd', (0,)) \
        + sos_cases(tier)
