"""Reference model of X1 numbers, written from the documentation.

Integers: 27-bit ones' complement, |i| <= 2**26-1 (modelled as Python ints; -0 is not distinguished).
Reals: class R, value = m * 2**e with |m| having exactly 40 bits (or zero), binary exponent field -2048..2047.
Every real operation is the exact result, rounded once to the 64-bit significand of the host's extended
format (round to nearest even) and once to 40 bits (ties away from zero).
"""
from fractions import Fraction

MAXINT = (1 << 26) - 1


class X1Error(Exception):
    """The program must stop with an error message at this point."""


class R:
    __slots__ = ("m", "e")

    def __init__(self, m, e):
        self.m = m
        self.e = e

    def frac(self):
        return Fraction(self.m) * (Fraction(2) ** self.e)

    def __repr__(self):
        return "R(%s)" % fmt13(self)

    def __eq__(self, o):
        return isinstance(o, R) and cmp_num(self, o) == 0

    def __hash__(self):
        return hash((self.m, self.e))


ZERO = R(0, 0)


def _round(n, k, even):
    """n >> k rounded to nearest; ties to even or away (n >= 0)."""
    if k <= 0:
        return n << -k
    q = n >> k
    rem = n & ((1 << k) - 1)
    half = 1 << (k - 1)
    if rem > half or (rem == half and (not even or q & 1)):
        q += 1
    return q


def mk(n, e, sticky=0):
    """Round n * 2**e (n integer; sticky=1: the exact value is a little larger in magnitude)."""
    neg = n < 0
    if neg:
        n = -n
    if n == 0:
        return ZERO
    if sticky:
        n = (n << 2) | 1
        e -= 2
    bl = n.bit_length()
    if bl > 64:
        k = bl - 64
        n = _round(n, k, True)
        e += k
        bl = n.bit_length()
        if bl > 64:
            n >>= 1
            e += 1
            bl = 64
    k = bl - 40
    n = _round(n, k, False)
    e += k
    if n >> 40:
        n >>= 1
        e += 1
    exp = e + 40                    # frexp exponent
    if exp > 2047:
        raise X1Error("real overflow")
    if exp < -2048:
        return ZERO
    return R(-n if neg else n, e)


def from_int(i):
    return mk(i, 0)


def from_frac(f):
    """Round an exact rational as the host would when it is the exact result of one operation."""
    p, q = f.numerator, f.denominator
    return div_exact(p, q)


def div_exact(p, q):
    neg = (p < 0) != (q < 0)
    p, q = abs(p), abs(q)
    if p == 0:
        return ZERO
    k = max(0, 70 - (p.bit_length() - q.bit_length()))
    d, r = divmod(p << k, q)
    v = mk(d, -k, 1 if r else 0)
    return R(-v.m, v.e) if neg else v


def to_me(x):
    if isinstance(x, R):
        return x.m, x.e
    return x, 0


def is_int(x):
    return isinstance(x, int)


def _align(a, b):
    m1, e1 = to_me(a)
    m2, e2 = to_me(b)
    e = min(e1, e2)
    return m1 << (e1 - e), m2 << (e2 - e), e


def chk(i):
    if abs(i) > MAXINT:
        raise X1Error("integer overflow")
    return i


def add(a, b):
    if is_int(a) and is_int(b):
        return chk(a + b)
    x, y, e = _align(a, b)
    return mk(x + y, e)


def sub(a, b):
    if is_int(a) and is_int(b):
        return chk(a - b)
    x, y, e = _align(a, b)
    return mk(x - y, e)


def mul(a, b):
    if is_int(a) and is_int(b):
        p = a * b
        if abs(p) <= MAXINT:
            return p
        return mk(p, 0)
    m1, e1 = to_me(a)
    m2, e2 = to_me(b)
    return mk(m1 * m2, e1 + e2)


def div(a, b):
    m1, e1 = to_me(a)
    m2, e2 = to_me(b)
    if m2 == 0:
        raise X1Error("division by zero")
    if m1 == 0:
        return ZERO
    neg = (m1 < 0) != (m2 < 0)
    p, q = abs(m1), abs(m2)
    k = max(0, 70 - (p.bit_length() - q.bit_length()))
    d, r = divmod(p << k, q)
    v = mk(d, e1 - e2 - k, 1 if r else 0)
    return R(-v.m, v.e) if neg else v


def idiv(a, b):
    if not (is_int(a) and is_int(b)):
        raise X1Error("integer division of reals")
    if b == 0:
        raise X1Error("division by zero")
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def ipow(a, n):
    """a ^ n for integer a, n >= 0."""
    if n == 0:
        if a == 0:
            raise X1Error("0^0")
        return 1
    if abs(a) > 1 and n > 27:
        raise X1Error("integer overflow")
    return chk(a ** n if abs(a) > 1 else (a if n & 1 else abs(a)))


def neg(a):
    if is_int(a):
        return -a
    return R(-a.m, a.e)


def cmp_num(a, b):
    x, y, _ = _align(a, b)
    return (x > y) - (x < y)


def sign(a):
    m = a if is_int(a) else a.m
    return (m > 0) - (m < 0)


def abs_(a):
    """abs always yields a real."""
    if is_int(a):
        return from_int(abs(a))
    return R(abs(a.m), a.e)


def floor_(a):
    if is_int(a):
        return a
    f = a.m << a.e if a.e >= 0 else a.m >> -a.e
    if abs(f) > MAXINT:
        raise X1Error("entier overflow")
    return f


def to_int(a):
    """Transfer to integer: round half away from zero."""
    if is_int(a):
        return a
    m, e = abs(a.m), a.e
    if m and e + m.bit_length() > 40:
        raise X1Error("integer overflow")
    r = m << e if e >= 0 else (m >> -e) + ((m >> (-e - 1)) & 1)
    return chk(-r if a.m < 0 else r)


def to_real(a):
    return a if isinstance(a, R) else from_int(a)


def isqrt_real(a):
    """Correctly rounded square root."""
    from math import isqrt
    m, e = to_me(a)
    if m < 0:
        raise X1Error("sqrt of negative")
    if m == 0:
        return ZERO
    k = 150 + (e & 1)
    n = m << k
    ee = e - k
    if ee & 1:
        n <<= 1
        ee -= 1
    s = isqrt(n)
    return mk(s, ee // 2, 1 if s * s != n else 0)


# ---- decimal output -------------------------------------------------------
def dec_digits(num, den, ndig):
    """(digits int, exp10) with value ~ digits * 10**(exp10-ndig+1), rounded half even to ndig digits."""
    assert num > 0
    # estimate the decimal exponent
    from math import log10
    x = int((num.bit_length() - den.bit_length()) * 0.30103) - 1
    while True:
        # want 10**x <= num/den < 10**(x+1)
        if x + 1 >= 0:
            big = num >= den * 10 ** (x + 1)
        else:
            big = num * 10 ** (-(x + 1)) >= den
        if big:
            x += 1
            continue
        if x >= 0:
            small = num < den * 10 ** x
        else:
            small = num * 10 ** (-x) < den
        if small:
            x -= 1
            continue
        break
    s = ndig - 1 - x
    if s >= 0:
        n, d = num * 10 ** s, den
    else:
        n, d = num, den * 10 ** (-s)
    q, r = divmod(n, d)
    if 2 * r > d or (2 * r == d and q & 1):
        q += 1
    if q == 10 ** ndig:
        q //= 10
        x += 1
    return q, x


def fmt_g(m, e, prec=13):
    """C's %.{prec}g for the exact value m*2**e."""
    if m == 0:
        return "0"
    sg = "-" if m < 0 else ""
    m = abs(m)
    num, den = (m << e, 1) if e >= 0 else (m, 1 << -e)
    q, x = dec_digits(num, den, prec)
    ds = str(q)
    if x < -4 or x >= prec:
        frac = ds[1:].rstrip("0")
        return sg + ds[0] + ("." + frac if frac else "") + "e" + ("-" if x < 0 else "+") + "%02d" % abs(x)
    if x >= 0:
        ip, fp = ds[:x + 1], ds[x + 1:].rstrip("0")
    else:
        ip, fp = "0", ("0" * (-x - 1) + ds).rstrip("0")
    return sg + ip + ("." + fp if fp else "")


def fmt13(v):
    """What print writes for a number (minus zero is written as 0 here)."""
    if is_int(v):
        return str(v)
    return fmt_g(v.m, v.e, 13)
