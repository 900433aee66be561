"""Hash-consed bit-vector terms with light, local simplification.

Every value of the symbolic executor is such a term; a 1-bit term doubles as a
boolean.  `evaluate` gives the concrete meaning of a term (used to validate the
translation against the real library), `smt.py` gives its meaning to a solver.
"""
import sys
sys.setrecursionlimit(200000)

_tab = {}
_n = [0]


class T:
    __slots__ = ('op', 'a', 'w', 'p', 'id', '_ub', '_tz')

    def __repr__(self):
        return show(self)


def _mk(op, a, w, p=None):
    k = (op, tuple(x.id for x in a), w, p)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.w, t.p = op, a, w, p
        _n[0] += 1
        t.id = _n[0]
        t._ub = None
        t._tz = None
        _tab[k] = t
    return t


def const(v, w):
    return _mk('const', (), w, v & ((1 << w) - 1))


TRUE = const(1, 1)
FALSE = const(0, 1)


def var(name, w):
    return _mk('var', (), w, name)


_fresh = [0]


def fresh(prefix, w):
    _fresh[0] += 1
    return var('%s!%d' % (prefix, _fresh[0]), w)


def isc(t):
    return t.op == 'const'


def mask(w):
    return (1 << w) - 1


def ub(t):
    """unsigned upper bound"""
    if t._ub is None:
        t._ub = _ub(t)
    return t._ub


def _ub(t):
    m = mask(t.w)
    op, a = t.op, t.a
    if op == 'const':
        return t.p
    if op == 'zext':
        return ub(a[0])
    if op == 'and':
        r = m
        for x in a:
            r = min(r, ub(x))
        return r
    if op in ('or', 'xor'):
        r = 0
        for x in a:
            r = max(r, ub(x).bit_length())
        return mask(r)
    if op == 'add':
        r = ub(a[0]) + ub(a[1])
        return min(r, m) if r <= m else m
    if op == 'mul':
        r = ub(a[0]) * ub(a[1])
        return r if r <= m else m
    if op == 'lshr':
        if isc(a[1]):
            return ub(a[0]) >> min(a[1].p, t.w)
        return ub(a[0])
    if op == 'shl' and isc(a[1]):
        r = ub(a[0]) << min(a[1].p, t.w)
        return r if r <= m else m
    if op == 'ite':
        return max(ub(a[1]), ub(a[2]))
    if op == 'udiv':
        return ub(a[0])
    if op == 'urem':
        if isc(a[1]) and a[1].p:
            return min(ub(a[0]), a[1].p - 1)
        return ub(a[0])
    if op == 'extract':
        hi, lo = t.p
        return min(m, ub(a[0]) >> lo)
    if op == 'concat':
        hi = a[0]
        return (ub(hi) << a[1].w) | (mask(a[1].w) if ub(hi) else ub(a[1]))
    if op in ('clz', 'ctz', 'pop'):
        return t.a[0].w
    return m


def tz(t):
    """known number of trailing zero bits"""
    if t._tz is None:
        t._tz = _tz(t)
    return t._tz


def _tz(t):
    op, a = t.op, t.a
    if op == 'const':
        if t.p == 0:
            return t.w
        return (t.p & -t.p).bit_length() - 1
    if op == 'shl' and isc(a[1]):
        return min(t.w, tz(a[0]) + a[1].p)
    if op == 'concat':
        z = tz(a[1])
        if z == a[1].w:
            return z + tz(a[0])
        return z
    if op == 'zext':
        z = tz(a[0])
        return z if z < a[0].w else t.w
    if op in ('add', 'sub', 'or', 'xor'):
        return min(tz(a[0]), tz(a[1]))
    if op == 'and':
        return max(tz(a[0]), tz(a[1]))
    if op == 'mul':
        return min(t.w, tz(a[0]) + tz(a[1]))
    if op == 'ite':
        return min(tz(a[1]), tz(a[2]))
    if op == 'extract':
        hi, lo = t.p
        return max(0, min(t.w, tz(a[0]) - lo))
    return 0


# ---- constructors ---------------------------------------------------------

def _sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def add(x, y):
    assert x.w == y.w
    if isc(x) and isc(y):
        return const(x.p + y.p, x.w)
    if isc(x):
        x, y = y, x
    if isc(y):
        if y.p == 0:
            return x
        if x.op == 'add' and isc(x.a[1]):
            return add(x.a[0], const(x.a[1].p + y.p, x.w))
        if x.op == 'ite' and isc(x.a[1]) and isc(x.a[2]):
            return ite(x.a[0], add(x.a[1], y), add(x.a[2], y))
    return _mk('add', (x, y), x.w)


def sub(x, y):
    assert x.w == y.w
    if isc(y):
        return add(x, const(-y.p, x.w))
    if x is y:
        return const(0, x.w)
    if x.op == 'add':
        if x.a[0] is y:
            return x.a[1]
        if x.a[1] is y:
            return x.a[0]
    if y.op == 'add' and isc(y.a[1]):
        # x - (z + c)
        return add(sub(x, y.a[0]), const(-y.a[1].p, x.w))
    if x.op == 'add' and isc(x.a[1]) and x.a[0].op not in ('var', 'zext'):
        pass
    if x.op == 'add' and isc(x.a[1]):
        return add(sub(x.a[0], y), x.a[1])
    return _mk('sub', (x, y), x.w)


def neg(x):
    return sub(const(0, x.w), x)


def mul(x, y):
    assert x.w == y.w
    if isc(x) and isc(y):
        return const(x.p * y.p, x.w)
    if isc(x):
        x, y = y, x
    if isc(y):
        if y.p == 0:
            return y
        if y.p == 1:
            return x
        if y.p & (y.p - 1) == 0:
            return shl(x, const(y.p.bit_length() - 1, x.w))
    elif x.id > y.id:
        x, y = y, x
    return _mk('mul', (x, y), x.w)


def udiv(x, y):
    if isc(y) and y.p:
        if isc(x):
            return const(x.p // y.p, x.w)
        if y.p & (y.p - 1) == 0:
            return lshr(x, const(y.p.bit_length() - 1, x.w))
    return _mk('udiv', (x, y), x.w)


def urem(x, y):
    if isc(y) and y.p:
        if isc(x):
            return const(x.p % y.p, x.w)
        if y.p & (y.p - 1) == 0:
            return and_(x, const(y.p - 1, x.w))
    return _mk('urem', (x, y), x.w)


def sdiv(x, y):
    return _mk('sdiv', (x, y), x.w)


def srem(x, y):
    return _mk('srem', (x, y), x.w)


def not_(x):
    if isc(x):
        return const(~x.p, x.w)
    if x.op == 'not':
        return x.a[0]
    if x.w == 1:
        if x.op == 'ult':
            return ule(x.a[1], x.a[0])
        if x.op == 'ule':
            return ult(x.a[1], x.a[0])
        if x.op == 'slt':
            return sle(x.a[1], x.a[0])
        if x.op == 'sle':
            return slt(x.a[1], x.a[0])
    return _mk('not', (x,), x.w)


def and_(x, y):
    assert x.w == y.w, (x.w, y.w)
    if x is y:
        return x
    if isc(x):
        x, y = y, x
    if isc(y):
        if isc(x):
            return const(x.p & y.p, x.w)
        if y.p == 0:
            return y
        if y.p == mask(y.w):
            return x
        if x.op == 'and' and isc(x.a[1]):
            return and_(x.a[0], const(x.a[1].p & y.p, x.w))
        # mask of low bits -> zext(extract)
        p = y.p
        if p & (p + 1) == 0:
            n = p.bit_length()
            return zext(extract(x, n - 1, 0), x.w)
        # contiguous mask
        lo = tz(y)
        q = p >> lo
        if q & (q + 1) == 0:
            n = q.bit_length()
            e = extract(x, lo + n - 1, lo)
            r = concat(e, const(0, lo))
            return zext(r, x.w)
    if x.w == 1:
        if x.op == 'not' and x.a[0] is y or y.op == 'not' and y.a[0] is x:
            return FALSE
        if y.op == 'and' and (y.a[0] is x or y.a[1] is x):
            return y
        if x.op == 'and' and (x.a[0] is y or x.a[1] is y):
            return x
    if x.id > y.id and not isc(y):
        x, y = y, x
    return _mk('and', (x, y), x.w)


def or_(x, y):
    assert x.w == y.w
    if x is y:
        return x
    if isc(x):
        x, y = y, x
    if isc(y):
        if isc(x):
            return const(x.p | y.p, x.w)
        if y.p == 0:
            return x
        if y.p == mask(y.w):
            return y
    if x.w == 1:
        if x.op == 'not' and x.a[0] is y or y.op == 'not' and y.a[0] is x:
            return TRUE
        if x.op == 'and' and y.op == 'and':
            # (c & g) | (c & !g) -> c
            for i in (0, 1):
                for j in (0, 1):
                    if x.a[i] is y.a[j]:
                        u, v = x.a[1 - i], y.a[1 - j]
                        if u is v:
                            return x
                        if not_(u) is v:
                            return x.a[i]
        if y.op == 'and' and (y.a[0] is x or y.a[1] is x):
            return x
        if x.op == 'and' and (x.a[0] is y or x.a[1] is y):
            return y
    else:
        # disjoint ranges -> concat
        for u, v in ((x, y), (y, x)):
            z = tz(u)
            if z and ub(v) < (1 << z) and z < u.w:
                return concat(extract(u, u.w - 1, z), extract(v, z - 1, 0))
    if x.id > y.id and not isc(y):
        x, y = y, x
    return _mk('or', (x, y), x.w)


def xor(x, y):
    assert x.w == y.w
    if x is y:
        return const(0, x.w)
    if isc(x):
        x, y = y, x
    if isc(y):
        if isc(x):
            return const(x.p ^ y.p, x.w)
        if y.p == 0:
            return x
        if y.p == mask(y.w):
            return not_(x)
        if x.op == 'xor' and isc(x.a[1]):
            return xor(x.a[0], const(x.a[1].p ^ y.p, x.w))
        # xor of a contiguous top part: push through concat
        if x.op == 'concat':
            lo = x.a[1].w
            return concat(xor(x.a[0], const(y.p >> lo, x.a[0].w)),
                          xor(x.a[1], const(y.p, lo)))
    if x.id > y.id and not isc(y):
        x, y = y, x
    return _mk('xor', (x, y), x.w)


def shl(x, y):
    assert x.w == y.w
    if isc(y):
        n = y.p
        if n == 0:
            return x
        if n >= x.w:
            return const(0, x.w)
        return concat(extract(x, x.w - 1 - n, 0), const(0, n))
    if isc(x) and x.p == 0:
        return x
    return _mk('shl', (x, y), x.w)


def lshr(x, y):
    assert x.w == y.w
    if isc(y):
        n = y.p
        if n == 0:
            return x
        if n >= x.w:
            return const(0, x.w)
        return zext(extract(x, x.w - 1, n), x.w)
    if isc(x) and x.p == 0:
        return x
    return _mk('lshr', (x, y), x.w)


def ashr(x, y):
    if isc(y):
        n = min(y.p, x.w - 1)
        if n == 0:
            return x
        return sext(extract(x, x.w - 1, n), x.w)
    return _mk('ashr', (x, y), x.w)


def concat(x, y):
    if x.w == 0:
        return y
    if y.w == 0:
        return x
    if isc(x) and isc(y):
        return const((x.p << y.w) | y.p, x.w + y.w)
    if isc(x) and x.p == 0:
        return zext(y, x.w + y.w)
    # adjacent extracts
    if x.op == 'extract' and y.op == 'extract' and x.a[0] is y.a[0] \
            and x.p[1] == y.p[0] + 1:
        return extract(x.a[0], x.p[0], y.p[1])
    if y.op == 'concat':
        h = y.a[0]
        if (isc(x) and isc(h)) or (x.op == 'extract' and h.op == 'extract'
                                   and x.a[0] is h.a[0]
                                   and x.p[1] == h.p[0] + 1):
            return concat(concat(x, h), y.a[1])
    if x.op == 'zext':
        return zext(concat(x.a[0], y), x.w + y.w)
    # right-nested normal form
    if x.op == 'concat':
        return concat(x.a[0], concat(x.a[1], y))
    if x.op == 'ite' and y.op == 'ite' and x.a[0] is y.a[0]:
        return ite(x.a[0], concat(x.a[1], y.a[1]), concat(x.a[2], y.a[2]))
    return _mk('concat', (x, y), x.w + y.w)


def extract(x, hi, lo):
    if lo > hi:
        return const(0, 0)
    assert 0 <= lo <= hi < x.w, (hi, lo, x.w)
    if lo == 0 and hi == x.w - 1:
        return x
    op = x.op
    w = hi - lo + 1
    if op == 'const':
        return const(x.p >> lo, w)
    if op == 'extract':
        return extract(x.a[0], hi + x.p[1], lo + x.p[1])
    if op == 'concat':
        lw = x.a[1].w
        if hi < lw:
            return extract(x.a[1], hi, lo)
        if lo >= lw:
            return extract(x.a[0], hi - lw, lo - lw)
        return concat(extract(x.a[0], hi - lw, 0), extract(x.a[1], lw - 1, lo))
    if op == 'zext':
        iw = x.a[0].w
        if hi < iw:
            return extract(x.a[0], hi, lo)
        if lo >= iw:
            return const(0, w)
        return zext(extract(x.a[0], iw - 1, lo), w)
    if op == 'sext':
        iw = x.a[0].w
        if hi < iw:
            return extract(x.a[0], hi, lo)
        if lo < iw:
            return sext(extract(x.a[0], iw - 1, lo), w)
        return sext(extract(x.a[0], iw - 1, iw - 1), w)
    if op in ('and', 'or', 'xor'):
        f = {'and': and_, 'or': or_, 'xor': xor}[op]
        return f(extract(x.a[0], hi, lo), extract(x.a[1], hi, lo))
    if op == 'not':
        return not_(extract(x.a[0], hi, lo))
    if op == 'ite':
        a, b = x.a[1], x.a[2]
        if isc(a) or isc(b) or a.op in ('concat', 'zext') \
                or b.op in ('concat', 'zext'):
            return ite(x.a[0], extract(a, hi, lo), extract(b, hi, lo))
    if ub(x) >> lo == 0:
        return const(0, w)
    if lo == 0 and op in ('add', 'sub', 'mul'):
        f = {'add': add, 'sub': sub, 'mul': mul}[op]
        if op != 'mul' or isc(x.a[1]):
            return f(extract(x.a[0], hi, 0), extract(x.a[1], hi, 0))
    if ub(x) <= mask(hi) and hi < x.w - 1 and lo > 0:
        n = ub(x).bit_length()
        if n - 1 < hi:
            return zext(extract(x, n - 1, lo), w)
    return _mk('extract', (x,), w, (hi, lo))


def zext(x, w):
    if w == x.w:
        return x
    assert w > x.w
    if isc(x):
        return const(x.p, w)
    if x.op == 'zext':
        return zext(x.a[0], w)
    if x.op == 'extract' and x.p[1] == 0 and ub(x.a[0]) <= mask(x.w):
        return resize(x.a[0], w)        # lossless truncation
    return _mk('zext', (x,), w)


def sext(x, w):
    if w == x.w:
        return x
    if isc(x):
        return const(_sgn(x.p, x.w), w)
    if x.op == 'zext':
        return zext(x.a[0], w)
    if ub(x) <= mask(x.w - 1):
        return zext(x, w)
    return _mk('sext', (x,), w)


def trunc(x, w):
    return extract(x, w - 1, 0)


def resize(x, w):
    return x if x.w == w else (zext(x, w) if w > x.w else trunc(x, w))


def ite(c, x, y):
    assert c.w == 1 and x.w == y.w, (c.w, x.w, y.w)
    if isc(c):
        return x if c.p else y
    if x is y:
        return x
    if c.op == 'not':
        c, x, y = c.a[0], y, x
    if x.w == 1:
        if isc(x):
            return or_(c, y) if x.p else and_(not_(c), y)
        if isc(y):
            return or_(not_(c), x) if y.p else and_(c, x)
    if x.op == 'ite' and x.a[0] is c:
        x = x.a[1]
    if y.op == 'ite' and y.a[0] is c:
        y = y.a[2]
    if x is y:
        return x
    # c & d shortcuts: ite(c, ite(d, p, q), q) -> ite(c&d, p, q)
    if x.op == 'ite' and x.a[2] is y:
        return ite(and_(c, x.a[0]), x.a[1], y)
    if y.op == 'ite' and y.a[1] is x:
        return ite(or_(c, y.a[0]), x, y.a[2])
    if x.op == 'zext' and y.op == 'zext' and x.a[0].w == y.a[0].w:
        return zext(ite(c, x.a[0], y.a[0]), x.w)
    return _mk('ite', (c, x, y), x.w)


def eq(x, y):
    assert x.w == y.w, (x.w, y.w)
    if x is y:
        return TRUE
    if isc(x):
        x, y = y, x
    if isc(y):
        if isc(x):
            return const(x.p == y.p, 1)
        if x.w == 1:
            return x if y.p else not_(x)
        if y.p > ub(x):
            return FALSE
        if x.op == 'zext':
            return eq(x.a[0], const(y.p, x.a[0].w))
        if x.op == 'concat':
            lw = x.a[1].w
            return and_(eq(x.a[0], const(y.p >> lw, x.a[0].w)),
                        eq(x.a[1], const(y.p, lw)))
        if x.op == 'ite':
            a, b = x.a[1], x.a[2]
            if isc(a) or isc(b):
                return ite(x.a[0], eq(a, y), eq(b, y))
        if x.op == 'add' and isc(x.a[1]):
            return eq(x.a[0], const(y.p - x.a[1].p, x.w))
        if x.op == 'xor' and isc(x.a[1]):
            return eq(x.a[0], const(y.p ^ x.a[1].p, x.w))
        if y.p == 0 and x.op == 'or':
            return and_(eq(x.a[0], y), eq(x.a[1], y))
        if y.p == 0 and x.op in ('sub', 'xor'):
            return eq(x.a[0], x.a[1])
    else:
        if x.op == 'zext' and y.op == 'zext' and x.a[0].w == y.a[0].w:
            return eq(x.a[0], y.a[0])
        if x.op == 'concat' and y.op == 'concat' and x.a[1].w == y.a[1].w:
            return and_(eq(x.a[0], y.a[0]), eq(x.a[1], y.a[1]))
        if x.id > y.id:
            x, y = y, x
    return _mk('eq', (x, y), 1)


def ne(x, y):
    return not_(eq(x, y))


def ult(x, y):
    assert x.w == y.w
    if x is y:
        return FALSE
    if isc(x) and isc(y):
        return const(x.p < y.p, 1)
    if isc(y):
        if y.p == 0:
            return FALSE
        if ub(x) < y.p:
            return TRUE
        if y.p == 1:
            return eq(x, const(0, x.w))
    if isc(x):
        if x.p >= ub(y):
            return FALSE
        if x.p == 0:
            return ne(y, x)
    if x.w == 1:
        return and_(not_(x), y)
    if x.op == 'zext' and y.op == 'zext':
        w = max(x.a[0].w, y.a[0].w)
        return ult(zext(x.a[0], w), zext(y.a[0], w))
    if x.op == 'zext' and isc(y):
        return ult(x.a[0], const(y.p, x.a[0].w))  # y.p <= ub(x)
    if y.op == 'zext' and isc(x):
        return ult(const(x.p, y.a[0].w), y.a[0])
    if x.op == 'ite' and isc(x.a[1]) and isc(x.a[2]):
        return ite(x.a[0], ult(x.a[1], y), ult(x.a[2], y))
    if y.op == 'ite' and isc(y.a[1]) and isc(y.a[2]):
        return ite(y.a[0], ult(x, y.a[1]), ult(x, y.a[2]))
    return _mk('ult', (x, y), 1)


def ule(x, y):
    if x is y:
        return TRUE
    if isc(x) and isc(y):
        return const(x.p <= y.p, 1)
    if isc(y):
        if y.p == mask(y.w):
            return TRUE
        return ult(x, const(y.p + 1, y.w))
    if isc(x):
        if x.p == 0:
            return TRUE
        return ult(const(x.p - 1, x.w), y)
    if x.w == 1:
        return or_(not_(x), y)
    if x.op == 'zext' and y.op == 'zext':
        w = max(x.a[0].w, y.a[0].w)
        return ule(zext(x.a[0], w), zext(y.a[0], w))
    return _mk('ule', (x, y), 1)


def slt(x, y):
    if x is y:
        return FALSE
    if isc(x) and isc(y):
        return const(_sgn(x.p, x.w) < _sgn(y.p, y.w), 1)
    h = mask(x.w - 1)
    if ub(x) <= h and ub(y) <= h:
        return ult(x, y)
    if isc(y) and y.p == 0:
        return extract(x, x.w - 1, x.w - 1)
    return _mk('slt', (x, y), 1)


def sle(x, y):
    if x is y:
        return TRUE
    if isc(x) and isc(y):
        return const(_sgn(x.p, x.w) <= _sgn(y.p, y.w), 1)
    h = mask(x.w - 1)
    if ub(x) <= h and ub(y) <= h:
        return ule(x, y)
    if isc(x) and x.p == 0:
        return not_(extract(y, y.w - 1, y.w - 1))
    if isc(y) and y.p == mask(y.w):  # x <= -1
        return extract(x, x.w - 1, x.w - 1)
    if isc(x) and x.p == 0:
        return not_(extract(y, y.w - 1, y.w - 1))
    return _mk('sle', (x, y), 1)


def ugt(x, y):
    return ult(y, x)


def uge(x, y):
    return ule(y, x)


def uaddo(x, y):
    if isc(x) and isc(y):
        return const((x.p + y.p) >> x.w, 1)
    if ub(x) + ub(y) <= mask(x.w):
        return FALSE
    return _mk('uaddo', (x, y), 1)


def usubo(x, y):
    return ult(x, y)


def clz(x):
    if isc(x):
        return const(x.w - x.p.bit_length(), x.w)
    return _mk('clz', (x,), x.w)


def ctz(x):
    if isc(x):
        return const((x.p & -x.p).bit_length() - 1 if x.p else x.w, x.w)
    return _mk('ctz', (x,), x.w)


def pop(x):
    if isc(x):
        return const(bin(x.p).count('1'), x.w)
    return _mk('pop', (x,), x.w)


def conj(*xs):
    r = TRUE
    for x in xs:
        r = and_(r, x)
    return r


def disj(*xs):
    r = FALSE
    for x in xs:
        r = or_(r, x)
    return r


def implies(a, b):
    return or_(not_(a), b)


# ---- traversal -------------------------------------------------------------

def topo(roots):
    seen = set()
    out = []
    st = [(r, False) for r in roots]
    while st:
        t, done = st.pop()
        if done:
            out.append(t)
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        st.append((t, True))
        for x in t.a:
            if x.id not in seen:
                st.append((x, False))
    return out


def variables(roots):
    return [t for t in topo(roots) if t.op == 'var']


BUILD = {
    'add': add, 'sub': sub, 'mul': mul, 'udiv': udiv, 'urem': urem,
    'sdiv': sdiv, 'srem': srem, 'not': not_, 'and': and_, 'or': or_,
    'xor': xor, 'shl': shl, 'lshr': lshr, 'ashr': ashr, 'concat': concat,
    'ite': ite, 'eq': eq, 'ult': ult, 'ule': ule, 'slt': slt, 'sle': sle,
    'uaddo': uaddo, 'clz': clz, 'ctz': ctz, 'pop': pop,
}


def substitute(roots, m):
    """m: {term id: term}; rebuilds bottom-up with simplification"""
    memo = dict(m)
    for t in topo_stop(roots, memo):
        if t.id in memo:
            continue
        if not t.a:
            memo[t.id] = t
            continue
        na = tuple(memo[x.id] for x in t.a)
        if all(u is v for u, v in zip(na, t.a)):
            memo[t.id] = t
        elif t.op == 'extract':
            memo[t.id] = extract(na[0], *t.p)
        elif t.op == 'zext':
            memo[t.id] = zext(na[0], t.w)
        elif t.op == 'sext':
            memo[t.id] = sext(na[0], t.w)
        else:
            memo[t.id] = BUILD[t.op](*na)
    return [memo[r.id] for r in roots]


def topo_stop(roots, stop):
    seen = set()
    out = []
    st = [(r, False) for r in roots]
    while st:
        t, done = st.pop()
        if done:
            out.append(t)
            continue
        if t.id in seen or t.id in stop:
            continue
        seen.add(t.id)
        st.append((t, True))
        for x in t.a:
            if x.id not in seen:
                st.append((x, False))
    return out


def ev1(t, v):
    """concrete value of t given the list v of argument values"""
    op, w = t.op, t.w
    m = (1 << w) - 1
    if op == 'add':
        return (v[0] + v[1]) & m
    if op == 'sub':
        return (v[0] - v[1]) & m
    if op == 'mul':
        return (v[0] * v[1]) & m
    if op == 'udiv':
        return v[0] // v[1] if v[1] else m
    if op == 'urem':
        return v[0] % v[1] if v[1] else v[0]
    if op in ('sdiv', 'srem'):
        x, y = _sgn(v[0], w), _sgn(v[1], w)
        if y == 0:
            return (m if x >= 0 else 1) if op == 'sdiv' else v[0]
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return q & m if op == 'sdiv' else (x - q * y) & m
    if op == 'and':
        return v[0] & v[1]
    if op == 'or':
        return v[0] | v[1]
    if op == 'xor':
        return v[0] ^ v[1]
    if op == 'not':
        return ~v[0] & m
    if op == 'shl':
        return (v[0] << v[1]) & m if v[1] < w else 0
    if op == 'lshr':
        return v[0] >> v[1] if v[1] < w else 0
    if op == 'ashr':
        return (_sgn(v[0], w) >> min(v[1], w)) & m
    if op == 'concat':
        return (v[0] << t.a[1].w) | v[1]
    if op == 'extract':
        return (v[0] >> t.p[1]) & m
    if op == 'zext':
        return v[0]
    if op == 'sext':
        return _sgn(v[0], t.a[0].w) & m
    if op == 'ite':
        return v[1] if v[0] else v[2]
    if op == 'eq':
        return int(v[0] == v[1])
    if op == 'ult':
        return int(v[0] < v[1])
    if op == 'ule':
        return int(v[0] <= v[1])
    if op == 'slt':
        aw = t.a[0].w
        return int(_sgn(v[0], aw) < _sgn(v[1], aw))
    if op == 'sle':
        aw = t.a[0].w
        return int(_sgn(v[0], aw) <= _sgn(v[1], aw))
    if op == 'uaddo':
        return (v[0] + v[1]) >> t.a[0].w
    if op == 'clz':
        return w - v[0].bit_length()
    if op == 'ctz':
        return (v[0] & -v[0]).bit_length() - 1 if v[0] else w
    if op == 'pop':
        return bin(v[0]).count('1')
    raise NotImplementedError(op)


def evaluate(roots, env, order=None, full=False):
    """env: {var name: int}"""
    val = {}
    for t in (order or topo(roots)):
        if t.op == 'const':
            val[t.id] = t.p
        elif t.op == 'var':
            val[t.id] = env[t.p]
        else:
            val[t.id] = ev1(t, [val[x.id] for x in t.a])
    if full:
        return val
    return [val[r.id] for r in roots]


def show(t, depth=4):
    if t.op == 'const':
        return '%#x:%d' % (t.p, t.w)
    if t.op == 'var':
        return '%s:%d' % (t.p, t.w)
    if depth == 0:
        return '#%d' % t.id
    return '(%s%s %s):%d' % (t.op, '' if t.p is None else str(t.p),
                            ' '.join(show(x, depth - 1) for x in t.a), t.w)
