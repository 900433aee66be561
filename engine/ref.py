"""Independent exact reference arithmetic for binary256 (Python integers).

Used to validate the solver-side specifications and to judge replays; it is
never the deciding step of a check.
"""
P = 237
FRAC = 236
EMAX = 262143
EMIN = -262142
BIAS = 262143
EXPMAX = 0x7ffff
M256 = (1 << 256) - 1
SIGN = 1 << 255
INF = EXPMAX << FRAC
NAN = INF | (1 << (FRAC - 1))
ONE = BIAS << FRAC


def split(b):
    return b >> 255, (b >> FRAC) & EXPMAX, b & ((1 << FRAC) - 1)


def is_nan(b):
    return (b & (SIGN - 1)) > INF


def is_inf(b):
    return (b & (SIGN - 1)) == INF


def is_zero(b):
    return (b & (SIGN - 1)) == 0


def is_fin(b):
    return (b & (SIGN - 1)) < INF


def num(b):
    """finite value as (signed integer m, exponent e): m * 2**e"""
    s, e, f = split(b)
    assert e != EXPMAX
    if e == 0:
        m, q = f, EMIN - FRAC
    else:
        m, q = f | (1 << FRAC), e - BIAS - FRAC
    return (-m if s else m), q


def rne(sign, m, e, sticky=0):
    """round (-1)^sign * (m + sticky*eps) * 2**e, m >= 0"""
    if m == 0 and not sticky:
        return sign << 255
    if sticky:
        m = (m << 2) | 1
        e -= 2
    n = m.bit_length()
    q = max(e + n - P, EMIN - FRAC)
    sh = q - e
    if sh <= 0:
        r = m << -sh
    else:
        r = m >> sh
        rem = m & ((1 << sh) - 1)
        half = 1 << (sh - 1)
        if rem > half or (rem == half and r & 1):
            r += 1
    if r == 1 << P:
        r >>= 1
        q += 1
    if r == 0:
        return sign << 255
    if r < 1 << FRAC:
        bits = r
    else:
        eb = q + FRAC + BIAS
        if eb >= EXPMAX:
            return (sign << 255) | INF
        bits = (eb << FRAC) | (r & ((1 << FRAC) - 1))
    return (sign << 255) | bits


def exact(sm, e, zsign=0):
    return rne(1 if sm < 0 else (0 if sm > 0 else zsign), abs(sm), e)
