"""Elementary functions of exact rationals to some 150 bits, in integer arithmetic (the oracle of P09)."""
from fractions import Fraction as F
from functools import lru_cache

BITS = 220


def _atan_inv(n, p):
    """atan(1/n) * 2**p"""
    x = (1 << p) // n
    s, k, n2, sg = x, 1, n * n, 1
    while x:
        x //= n2
        k += 2
        sg = -sg
        s += sg * (x // k)
    return s


@lru_cache(None)
def pi_fixed(p):
    q = p + 20
    return (4 * (4 * _atan_inv(5, q) - _atan_inv(239, q))) >> 20


@lru_cache(None)
def ln2_fixed(p):
    q = p + 20
    # ln 2 = 18 atanh(1/26) - 2 atanh(1/4801) + 8 atanh(1/8749)
    def ath(n):
        x = (1 << q) // n
        s, k, n2 = x, 1, n * n
        while x:
            x //= n2
            k += 2
            s += x // k
        return s
    return (18 * ath(26) - 2 * ath(4801) + 8 * ath(8749)) >> 20


def fix(x, p):
    """floor(x * 2**p)"""
    return (x.numerator << p) // x.denominator if p >= 0 else x.numerator // (x.denominator << -p)


def mag(x):
    """about log2 |x| (x != 0)"""
    return abs(x.numerator).bit_length() - x.denominator.bit_length()


def exp(x):
    """Rational near e**x; None if it is beyond 2**4000, 0 if below 2**-4000."""
    if x == 0:
        return F(1)
    if mag(x) > 13:
        return None if x > 0 else F(0)
    if mag(x) < -BITS // 2:
        return 1 + x
    p = BITS + 20
    X = fix(x, p)
    l2 = ln2_fixed(p)
    k = (X + l2 // 2) // l2
    if k > 4000:
        return None
    if k < -4000:
        return F(0)
    # more bits for the reduction
    q = p + 16
    r = (fix(x, q) - k * ln2_fixed(q)) >> 16
    t = s = 1 << p
    n = 1
    while t:
        t = (t * r) >> p
        if t in (0, -1):
            break
        t = t // n if t >= 0 else -((-t) // n)
        s += t
        n += 1
    v = F(s, 1 << p)
    return v * (F(2) ** k)


def ln(x):
    assert x > 0
    p = BITS + 60
    k = mag(x)
    m = x / (F(2) ** k)          # 0.5 .. 2
    if m > F(4, 3):
        m /= 2
        k += 1
    elif m < F(2, 3):
        m *= 2
        k -= 1
    y = (m - 1) / (m + 1)
    Y = fix(y, p)
    y2 = (Y * Y) >> p
    t, s, n = Y, Y, 1
    while abs(t) > 1:
        t = (t * y2) >> p
        n += 2
        s += t // n
    return F(2 * s + k * ln2_fixed(p), 1 << p)


def sincos(x):
    if x == 0:
        return F(0), F(1)
    if mag(x) < -BITS // 3:
        return x - x ** 3 / 6, 1 - x * x / 2
    p = BITS + 40
    e = max(0, mag(x)) + 8
    q = p + e
    pi = pi_fixed(q)
    X = fix(x, q)
    n = (X + pi // 4) // (pi // 2)
    r = X - n * pi // 2
    r >>= e
    r2 = (r * r) >> p
    t = s = r
    k = 1
    while abs(t) > 1:
        t = -((t * r2) >> p) // ((k + 1) * (k + 2))
        k += 2
        s += t
    t = c = 1 << p
    k = 0
    while abs(t) > 1:
        t = -((t * r2) >> p) // ((k + 1) * (k + 2))
        k += 2
        c += t
    n &= 3
    s, c = [(s, c), (c, -s), (-s, -c), (-c, s)][n]
    return F(s, 1 << p), F(c, 1 << p)


def sqrt(x):
    from math import isqrt
    if x == 0:
        return F(0)
    k = max(0, 2 * BITS - mag(x))
    k += k & 1
    return F(isqrt((x.numerator << k) // x.denominator), 1 << (k // 2))


def atan(x):
    if x == 0:
        return F(0)
    if x < 0:
        return -atan(-x)
    if mag(x) < -BITS // 3:
        return x - x ** 3 / 3
    p = BITS + 40
    if x > 1:
        return F(pi_fixed(p), 1 << (p + 1)) - atan(1 / x)
    p += 2 * max(0, -mag(x))
    y = fix(x, p)
    h = 0
    from math import isqrt
    one = 1 << p
    while y > one >> 4:
        y = (y << p) // (one + isqrt((one << p) + y * y))
        h += 1
    y2 = (y * y) >> p
    t, s, n = y, y, 1
    while abs(t) > 1:
        t = -((t * y2) >> p)
        n += 2
        s += t // n
    return F(s << h, 1 << p)


def power(a, b):
    """a**b for a > 0, real b."""
    v = b * ln(a)
    return exp(v)
