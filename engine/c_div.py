"""Checks: division and remainder.

The wide division `UInt<U256>::div_rem(U256)` is summarized during symbolic
execution by the integer quotient and remainder (its contract, P31); when its
arguments are shown to be those of the specification, the results are the
variables of the specification (Q, R), of which only the bounds are used."""
import c_arith
import core
import guide
import smt
import spec
import symex as S
import terms as t
from c_arith import CHECKS, NS, check, decide_guided, mul_operand, norm237, \
    refinements, rf, wide_norm
from core import Case, Run


def divrem_hook(g, table, log):
    """table: list of (dividend 512 bit, divisor 256 bit, quotient, rest)"""
    def hook(ex, name, args, st):
        if not ('divrem' in name and 'DivRemRB' in name
                and '7div_rem' in name and len(args) == 4
                and isinstance(args[0], S.Ptr) and isinstance(args[1], S.Ptr)):
            return None
        ws = [ex.load(st, S.gep(args[1], t.const(16 * i, 64)), 16)
              for i in range(4)]
        T = ws[0]
        for w in ws[1:]:
            T = t.concat(T, w)
        Y = t.concat(args[2], args[3])
        # a zero divisor makes the real function panic
        if not g.implied(st.pc, t.ne(Y, t.const(0, 256))):
            ex.panics.append((t.and_(st.pc, t.eq(Y, t.const(0, 256))),
                              'division by zero'))
        q = r = None
        for Ts, Ys, qs, rs in table:
            if same(g, st.pc, Y, Ys) and same(g, st.pc, T, Ts):
                q, r = qs, rs
                log.append('summary matched')
                break
        if q is None:
            Y2 = t.zext(Y, 512)
            q, r = t.udiv(T, Y2), t.trunc(t.urem(T, Y2), 256)
            log.append('summary not matched')
        for i in range(4):
            ex.store(st, S.gep(args[0], t.const(16 * i, 64)),
                     t.extract(q, 511 - 128 * i, 384 - 128 * i), 16)
        for i in range(2):
            ex.store(st, S.gep(args[0], t.const(64 + 16 * i, 64)),
                     t.extract(r, 255 - 128 * i, 128 - 128 * i), 16)
        ex.funcs_seen['summary of ' + name] = 1
        return None, st
    return hook


def same(g, pc, x, y):
    if x is y:
        return True
    for p, v in zip(g.pats, g.vals):
        a, b, c = g.ev([pc, x, y], p, v)
        if a and b != c:
            return False
    if g.prove(pc, t.ne(x, y), g.assume):
        return True
    xs = g.unfold([x, y, pc] + g.assume)
    return g.prove(xs[2], t.ne(xs[0], xs[1]), xs[3:])


def sdiv(a, b):
    """quotient when an operand is NaN, infinite or zero"""
    x, y = spec.F(a), spec.F(b)
    s = t.xor(x.s, y.s)
    r = spec.signed(s, t.ite(t.or_(x.inf, y.zero), spec.INF,
                             t.const(0, 256)))
    bad = t.disj(x.nan, y.nan, t.and_(x.inf, y.inf), t.and_(x.zero, y.zero))
    return t.ite(bad, spec.NAN, r)


def special(name, entry, n, fsp, asmf):
    def gen(R):
        e = spec.EMAXF << 236
        d = {}
        for v in 'ab':
            d[v] = core.rnd_float(R)
            if R.randrange(2):
                d[v] = R.choice([0, e, e | 1, e | 1 << 235])
            d[v] |= R.getrandbits(1) << 255
        if R.randrange(2):
            d[R.choice('ab'[:n])] = R.choice([0, e, e | 1])
        return d

    def fn():
        vs = [t.var(v, 256) for v in 'ab'[:n]]
        g = guide.Guide([asmf(*vs)], core.patterns(vs, 500, core.hash_name(
            name), gen), [], inputs=vs)
        log = []
        r = Run(entry, [('w', v) for v in vs], guide=g,
                hook=divrem_hook(g, [], log))
        sp = fsp(*vs)
        return decide_guided(name, [r], t.or_(t.not_(spec.same(
            r.res, sp)), r.panic), g, [], sp, havoc=True)
    return Case(name, fn, 2)


def operand(n, sub, rules):
    if sub:
        a, asm = mul_operand(n, 1)
        f = spec.F(a)
        term, z = norm237(f)
        rules.append(guide.Rule(term, 'N' + n.upper(), 'sat', lambda v: [
            t.extract(v, 236, 236)], wide=wide_norm))
        return a, asm, rules[-1].var, z
    v = t.var('n' + n, 237)
    rules.append(guide.Rule(v, wide=wide_norm, minw=7))
    a = spec.pack(t.var('s' + n, 1), smt.rvar('e' + n, 19, 1, 0x7fffe),
                  t.trunc(v, 236))
    return a, [t.extract(v, 236, 236)], v, t.const(0, 8)


def div_case(subx, suby, lt, recip=False, timeout=250):
    name = '%s: %s%s, x %s y' % ('recip' if recip else 'div',
                                 '' if recip else NS[subx] + ' / ', NS[suby],
                                 ('>=', '<')[lt])
    if recip:
        name = 'recip: %s, %s' % (NS[suby], ('power of two', 'other')[lt])

    def gen(R):
        fa, fb = rf(R), rf(R)
        k = R.randrange(6)
        if k == 0:
            fb = fa
        if k == 1:
            fb = fa ^ 1
        if k == 2:      # an exact quotient, or next to one
            i = R.randrange(1, 118)
            p = (R.getrandbits(i) | 1 << i) * (R.getrandbits(117) | 1 << 117)
            fa = (p << (237 - p.bit_length())) & t.mask(236)
            fb = 0
        if recip and not lt:
            fb = 1 << R.randrange(236) if suby else 0
        ea = R.choice([R.randint(1, 0x7fffe), 1, 2, 0x7fffe])
        lim = R.choice([0, 1, 0x7ffff, -237, -R.randrange(240)])
        eb = ea + 262143 - lim + R.randint(-3, 3)
        if not 1 <= eb <= 0x7fffe:
            eb = R.choice([1, 2, 0x7fffe, R.randint(1, 0x7fffe)])
        fa, fb = fa or subx, fb or suby
        return dict(fa=fa, fb=fb, ea=ea, eb=eb, na=fa | 1 << 236,
                    nb=fb | 1 << 236)

    def fn():
        rules = []
        if recip:
            a = t.const(spec.BIAS << 236, 256)
            ax, nx, zx = [], t.const(1 << 236, 237), t.const(0, 8)
        else:
            a, ax, nx, zx = operand('a', subx, rules)
        b, bx, ny, zy = operand('b', suby, rules)
        x, y = spec.F(a), spec.F(b)
        c = t.ult(nx, ny)
        asm = ax + bx
        T = t.shl(t.zext(nx, 512), t.const(237 + lt, 512))
        Y = t.zext(ny, 256)
        Y2 = t.zext(Y, 512)
        # 2^(n-1) <= x, y < 2^n: the quotient has 238 bits
        rules.append(guide.Rule(t.trunc(t.udiv(T, Y2), 238), 'Q', 'lin',
                                lambda v: [t.extract(v, 237, 237)],
                                trusted=True))
        Q = rules[-1].var
        rules.append(guide.Rule(t.trunc(t.urem(T, Y2), 237), 'R', 'lin',
                                lambda v: [t.ult(v, ny)], trusted=True))
        R = rules[-1].var
        asm = asm + [c if lt else t.not_(c)]
        EW = 24
        z = lambda v: t.resize(v, EW)
        # x / y = Q * 2^(qx - zx - qy + zy - 237 - lt)
        e = t.sub(t.sub(t.zext(x.q, EW), z(zx)), t.sub(t.zext(y.q, EW),
                                                       z(zy)))
        e = t.add(e, t.const(spec.BIAS - 1 - lt - 1, EW))
        cu = []
        st = t.ne(R, t.const(0, 237))
        sp = spec.round_norm(t.xor(x.s, y.s), t.concat(Q, st), e, t.FALSE,
                             cuts=cu)
        args = [b] if recip else [a, b]
        vs = [v for v in t.variables(args + asm) if v.p not in 'NANBQR']
        for v in rules:
            if v.how == 'affine':
                raise AssertionError
        g = guide.Guide(asm, core.patterns(vs, 400, core.hash_name(name),
                                           gen), rules, inputs=args)
        if not g.good():
            k, _ = smt.sweep(g.unfold(asm), [t.TRUE], timeout=60)
            if k == 'unsat':
                rec = core.Res(case=name + ': no such operands', verdict=k,
                               functions=[], insts=0, witnesses=0)
                return rec
        log = []
        r = Run('h_recip' if recip else 'h_div', [('w', v) for v in args],
                guide=g, hook=divrem_hook(g, [(
                    T, Y, t.zext(Q, 512), t.zext(R, 256))], log))
        bad = t.or_(t.not_(spec.same(r.res, sp)), r.panic)
        rec = decide_guided(name, [r], bad, g, [], sp, cuts=cu,
                            refine=refinements(t.var('fb' if suby else 'nb',
                                                     236 + (not suby))),
                            timeout=timeout)
        rec['abstraction'] = log + rec['abstraction']
        return rec
    return Case(name, fn, 3)


def tiny(entry, n, W):
    """the contract of div_rem for words of W bits (the code is generic in
    the word): 2W-bit x, nW-bit y != 0; x has a leading zero if y has more
    than W bits (the dividends of the crate have at least 19 of 256)"""
    name = 'integer division: %d by %d words of %d bits' % (2, n, W)

    def gen(R):
        y = R.getrandbits(R.randint(1, n * W)) or 1
        x = (y * R.getrandbits(2 * W) + R.choice([0, 1, y - 1, R.randrange(
            y)])) & t.mask(2 * W - (y >> W > 0))
        return dict(x=x, y=y)

    def fn():
        core.B = core.TinyBuild(W)
        x = t.zext(t.var('x', 2 * W), 16)
        y = t.zext(t.var('y', n * W), 16)
        nz = t.and_(t.ne(y, t.const(0, 16)), t.or_(
            t.ult(y, t.const(1 << W, 16)),
            t.ult(x, t.const(1 << (2 * W - 1), 16))))
        r = Run(entry, [('v', x), ('v', y)], outs=(2, 2), max_iter=8,
                feasible=lambda pc: smt.check([pc, nz],
                                              timeout=60)[0] != 'unsat')
        q, rem = r.out
        wt = lambda v: t.resize(v, 4 * W + 1)
        bad = t.disj(t.not_(t.ult(rem, y)), t.ne(t.add(t.mul(
            wt(q), wt(y)), wt(rem)), wt(x)), r.panic)
        return core.decide(name, [r], bad, [nz], gen=gen, timeout=300,
                           method='kissat')
    return Case(name, fn, 4)


def tinies(tier):
    return [tiny('t_div21', 1, W) for W in (6, 8)[:1 + (tier != 'quick')]] \
        + [tiny('t_div22', 2, W) for W in (6,)]


@check('P08', 'division and reciprocal',
       'none on the operands; the 512 by 256 bit integer division is '
       'replaced by its contract (quotient and remainder), which is decided '
       'for the same generic code with words of 6 bits instead of 128 '
       '(thorough: 8 bits)',
       outside='UInt::div_rem at 128-bit words')
def p08(tier):
    sp2 = lambda a, b: t.or_(spec.F(a).special, spec.F(b).special)
    one = t.const(spec.BIAS << 236, 256)
    return tinies(tier) + [special('div: special operand', 'h_div', 2, sdiv, sp2),
            special('recip: special operand', 'h_recip', 1, lambda a: sdiv(
                one, a), lambda a: spec.F(a).special)] + [
        div_case(u, v, lt) for u in (0, 1) for v in (0, 1) for lt in (0, 1)
    ] + [div_case(0, v, lt, True) for v in (0, 1) for lt in (0, 1)]


# ---- remainder --------------------------------------------------------------
def srem(a, b):
    """remainder when an operand is NaN, infinite or zero"""
    x, y = spec.F(a), spec.F(b)
    return t.ite(t.disj(x.nan, y.nan, x.inf, y.zero), spec.NAN, a)


def pack_exact(s, m, q):
    """m * 2^(q - BIAS - 236) for a 237-bit m and 1 <= q (exact)"""
    EW = 24
    lz = t.resize(t.clz(m), EW)
    lim = t.sub(t.zext(q, EW), t.const(1, EW))
    k = t.ite(t.ult(lz, lim), lz, lim)
    n = t.shl(m, t.zext(k, 237))
    e = t.sub(t.zext(q, EW), k)
    e = t.ite(t.extract(n, 236, 236), e, t.const(0, EW))
    return t.concat(s, t.concat(t.trunc(e, 19), t.extract(n, 235, 0)))


def rem_case(subx, suby, lo, hi, timeout=250):
    """|x| >= |y|, lo <= qx - qy <= hi (lo, hi in one block of 256)"""
    name = 'rem: %s %% %s, exponent difference %d..%d' % (
        NS[subx], NS[suby], lo, hi)
    steps = lo // 256

    def gen(R):
        fa, fb = rf(R), rf(R)
        k = R.randrange(6)
        if k == 0:
            fb = fa
        if k == 1:
            fb = fa ^ 1
        if k == 2:
            fb = R.choice([0, 1 << 235, 3 << 234])
        d = R.choice([lo, hi, R.randint(lo, hi)])
        if suby:
            qy = 1
            fb = fb or 1
            if R.randrange(2):
                fb = fb >> R.randrange(236) or 1
        else:
            qy = R.choice([1, 2, R.randint(1, 0x7fffe - d), 0x7fffe - d,
                           R.randint(1, 250)])
        if subx:
            fa = max(fa, fb)
        qy = min(qy, 0x7fffe - d)
        return dict(fa=fa, fb=fb, ea=qy + d, eb=qy, na=fa | 1 << 236,
                    nb=fb | 1 << 236, d=d)

    def fn():
        rules = []
        asm = []
        sig = []
        d = t.const(lo, 19) if lo == hi else smt.rvar('d', 19, lo, hi)
        if suby:
            qy = t.const(1, 19)
        else:
            qy = smt.rvar('eb', 19, 1, 0x7fffe - lo)
            asm.append(t.ule(t.zext(qy, 21), t.sub(t.const(
                0x7fffe, 21), t.zext(d, 21))))
        qx = t.add(qy, d)
        pats = []
        for n, sub, q in (('a', subx, qx), ('b', suby, qy)):
            if sub:
                f = t.var('f' + n, 236)
                asm.append(t.ne(f, t.const(0, 236)))
                v = t.zext(f, 237)
                e = t.const(0, 19)
            else:
                v = t.var('n' + n, 237)
                f = t.trunc(v, 236)
                rules.append(guide.Rule(v, wide=wide_norm, minw=7))
                asm.append(t.extract(v, 236, 236))
                e = q
            sig.append(v)
            pats.append(spec.pack(t.var('s' + n, 1), e, f))
        a, b = pats
        sx, sy = sig
        if lo == 0:
            asm.append(t.ule(spec.F(b).abs, spec.F(a).abs))
        Y = t.zext(sy, 256)
        table = []
        R = None
        for i in range(steps + 1):
            if i == 0:
                sh = t.zext(t.trunc(d, 8), 512)
                T = t.shl(t.zext(sx, 512), sh)
            else:
                T = t.concat(t.zext(R, 256), t.const(0, 256))

            def ax(v, i=i, R=R):
                z = t.eq(v, t.const(0, 237))
                r = [t.ult(v, sy)]
                # a multiple of the divisor
                r.append(t.implies(t.eq(sx, sy) if R is None else t.eq(
                    R, t.const(0, 237)), z))
                return r
            rules.append(guide.Rule(t.trunc(t.urem(T, t.zext(Y, 512)), 237),
                                    'R%d' % i, 'lin', ax, trusted=True))
            R = rules[-1].var
            table.append((T, Y, t.fresh('quotient', 512), t.zext(R, 256)))
        # the values of the quotients do not matter
        table = [(T_, Y_, t.udiv(T_, t.zext(Y_, 512)), R_)
                 for T_, Y_, _, R_ in table]
        sp = pack_exact(t.extract(a, 255, 255), R, qy)
        args = [a, b]
        vs = [v for v in t.variables(args + asm)
              if not (v.p[0] == 'R' and v.p[1:].isdigit())]
        g = guide.Guide(asm, core.patterns(vs, 400, core.hash_name(name),
                                           gen), rules, inputs=args)
        log = []
        r = Run('h_rem', [('w', v) for v in args], guide=g, max_iter=12,
                hook=divrem_hook(g, table, log))
        bad = t.or_(t.not_(c_arith.same_num(r.res, sp)), r.panic)
        rec = decide_guided(name, [r], bad, g, [], sp,
                            refine=refinements(t.var('fb' if suby else 'nb',
                                                     236 + (not suby))),
                            timeout=timeout)
        rec['abstraction'] = log + rec['abstraction']
        return rec
    return Case(name, fn, 3)


def rem_less():
    """|x| < |y|: x itself"""
    def gen(R):
        a, b = [core.rnd_float(R) & t.mask(255) for _ in 'ab']
        if R.randrange(3) == 0:
            a = max(b - R.choice([1, 1 << 128, 1 << 200]), 1)
        a, b = sorted([a or 1, b or 1])
        return dict(a=a | R.getrandbits(1) << 255,
                    b=b | R.getrandbits(1) << 255)

    def fn():
        a, b = t.var('a', 256), t.var('b', 256)
        x, y = spec.F(a), spec.F(b)
        asm = [t.ult(x.abs, y.abs), t.not_(x.special), t.not_(y.special)]
        g = guide.Guide(asm, core.patterns([a, b], 400, 7, gen), [],
                        inputs=[a, b])
        r = Run('h_rem', [('w', a), ('w', b)], guide=g,
                hook=divrem_hook(g, [], []))
        return decide_guided('rem: |x| < |y|', [r], t.or_(t.not_(
            spec.same(r.res, a)), r.panic), g, [], a, havoc=True)
    return Case('rem: |x| < |y|', fn, 2)


@check('P09', 'remainder',
       'exponent differences (of the quanta) 0..767, i.e. at most two steps '
       'of the reduction loop; thorough: 0..2559, and the greatest possible '
       'difference is not reached; the 512 by 256 bit integer division is '
       'replaced by its contract (quotient and remainder), which is decided '
       'for the same generic code with words of 6 bits instead of 128 '
       '(thorough: 8 bits)',
       outside='greater exponent differences; UInt::div_rem at 128-bit words')
def p09(tier):
    sp2 = lambda a, b: t.or_(spec.F(a).special, spec.F(b).special)
    cs = tinies(tier) + [special('rem: special operand', 'h_rem', 2, srem, sp2), rem_less()]
    for i in range(3 if tier == 'quick' else 10):
        for u in (0, 1):
            cs.append(rem_case(0, u, 256 * i, 256 * i + 255))
    return cs + [rem_case(1, 1, 0, 0)]
