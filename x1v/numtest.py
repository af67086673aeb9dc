"""Arithmetic operations on chosen operands, in every form of operand access, against the exact number model."""
import random
from fractions import Fraction

from . import hp
from . import num as N
from .num import R, X1Error
from .core import ok, bad, unsure, case_hash
from .diff import norm
from .harness import tool
from .lang import under

MAXI = N.MAXINT


def U(s):
    """{word} -> underlined word delimiter"""
    import re
    return re.sub(r'\{(\w+)\}', lambda m: ' ' + under(m.group(1), 'ascii') + ' ', s)


# ---------------------------------------------------------------- operands
def rnd_int(r):
    k = r.randrange(10)
    if k < 2:
        v = r.randrange(12)
    elif k < 4:
        v = MAXI - r.randrange(4)
    elif k < 6:
        v = (1 << r.randrange(27)) + r.randrange(-2, 3)
    elif k < 7:
        v = r.randrange(8180, 8210)         # products around 2**26
    else:
        v = r.randrange(1 << r.randrange(1, 27))
    v = max(0, min(MAXI, v))
    return -v if r.random() < .5 else v


def near_int(r, lim):
    """An integer close to a limit of the result."""
    return max(-MAXI, min(MAXI, lim + r.randrange(-2, 3)))


def rnd_real(r, span=None):
    m = r.choice([r.getrandbits(40), (1 << 40) - 1 - r.randrange(4), (1 << 39) + r.randrange(4), r.getrandbits(r.randrange(1, 40)) << r.randrange(20)])
    m = m or 1
    if span is None:
        k = r.random()
        if k < .5:
            e = r.randrange(-60, 20)
        elif k < .8:
            e = r.randrange(-1100, 1000)
        else:
            e = r.choice([2007 - r.randrange(4), -2088 + r.randrange(4), r.randrange(-2087, 2006)])
    else:
        e = span
    while True:
        try:
            v = N.mk(m, e)
            break
        except X1Error:
            e -= 1
    if r.random() < .5:
        v = N.neg(v)
    return v


def text_of(v, digits=25):
    """Decimal text that reads back as exactly v (read is exact to far more than 40 bits)."""
    if N.is_int(v):
        return str(v)
    if v.m == 0:
        return "0"
    f = abs(v.frac())
    q, x = N.dec_digits(f.numerator, f.denominator, digits)
    s = str(q)
    return "%s%s.%se%d" % ("-" if v.m < 0 else "", s[0], s[1:], x)


class Approx:
    """An inexact expected result: t within tol units of the 40-bit result (and the rounding of the printed decimal)."""

    def __init__(self, t, tol):
        self.t = t
        a = abs(t)
        if a:
            k = a.numerator.bit_length() - a.denominator.bit_length()
            if a < Fraction(2) ** k:
                k -= 1
            if a >= Fraction(2) ** (k + 1):
                k += 1
            ulp = Fraction(2) ** (k - 39)
            _, x = N.dec_digits(a.numerator, a.denominator, 13)
            self.err = ulp * tol + Fraction(10) ** (x - 12) * Fraction(51, 100)
        else:
            self.err = Fraction(0)

    def ok(self, text):
        try:
            return abs(Fraction(text) - self.t) <= self.err
        except ValueError:
            return False

    def __str__(self):
        return "%.16g(+-%.2g)" % (mag10(self.t), mag10(self.err))


def mag10(f):
    try:
        return float(f)
    except OverflowError:
        return float('inf')


def same_lines(want, got):
    """First differing line or -1. want: strings and Approx; got: the output's lines."""
    for i in range(max(len(want), len(got))):
        if i >= len(want) or i >= len(got):
            return i
        w = want[i]
        if isinstance(w, Approx):
            if not w.ok(got[i]):
                return i
        elif norm(w) != norm(got[i]):
            return i
    return -1


# ---------------------------------------------------------------- one program
class Prog:
    """Collects evaluations; each is a setup and a printed expression."""

    def __init__(self, r):
        self.r = r
        self.decl = []
        self.body = []
        self.inp = []
        self.exp = []
        self.fails = False
        self.n = 0
        self.kinds = {}
        self.loc = False

    def var(self, typ, k):
        return {'i': 'abc', 'r': 'xyz'}[typ][k] if not self.loc else {'i': 'def', 'r': 'uvt'}[typ][k]

    def load(self, name, v, pre):
        """Statement giving a variable the value v."""
        if N.is_int(v) and self.r.random() < .6:
            pre.append("%s:=%s" % (name, v))
        else:
            pre.append("%s:=read" % name)
            self.inp.append(text_of(v))

    def operand(self, v, k, pre, args):
        """(text usable as a primary, kind)"""
        r = self.r
        typ = 'i' if N.is_int(v) else 'r'
        x = r.random()
        if typ == 'i' and x < .2:
            return ("%d" % v if v >= 0 else "(%d)" % v), 'const'
        n = self.var(typ, k)
        self.load(n, v, pre)
        if x < .5:
            return n, 'var'
        if x < .6:
            arr = {'i': 'm', 'r': 'w'}[typ]
            pre.append("%s[%d]:=%s" % (arr, k, n))
            return "%s[%d]" % (arr, k), 'elem'
        if x < .7:
            f = {'i': 'fi', 'r': 'fr'}[typ]
            return "%s(%s)" % (f, n), 'function'
        if x < .9:
            p = "p%d" % k
            args.append((p, typ, r.random() < .5, n))
            return p, 'formal'
        return "(%s)" % n, 'par'

    def add(self, kind, vals, build, model, form=None):
        """build(operand texts) -> (expression text, type 'i'/'r'/'b'); model(*vals) -> value or X1Error."""
        pre, args = [], []
        self.loc = self.r.random() < .4
        mark = len(self.inp)
        ops = [self.operand(v, k, pre, args) for k, v in enumerate(vals)]
        txt, typ = build([o[0] for o in ops])
        try:
            res = model(*vals)
        except X1Error:
            res = None
        self.n += 1
        if typ == 'b':
            show = "print({if} %s {then} 1 {else} 0)" % txt
            out = None if res is None else ('1' if res else '0')
        else:
            x = self.r.random()
            if isinstance(res, Approx):
                show = "print(%s)" % txt
                if x < .4:
                    t = self.var('r', 2) if self.r.random() < .7 else "w[4]"
                    show = "%s:=%s; print(%s)" % (t, txt, t)
                out = res
            elif x < .6:
                show = "print(%s)" % txt
                out = None if res is None else N.fmt13(res)
            elif typ == 'i' and x < .8 or typ == 'r' and x < .7:
                # through an integer variable
                t = self.var('i', 2) if self.r.random() < .7 else "m[4]"
                show = "%s:=%s; print(%s)" % (t, txt, t)
                try:
                    out = None if res is None else N.fmt13(N.to_int(res))
                except X1Error:
                    out = None
            else:
                t = self.var('r', 2) if self.r.random() < .7 else "w[4]"
                show = "%s:=%s; print(%s)" % (t, txt, t)
                out = None if res is None else N.fmt13(N.to_real(res))
        for o in ops:
            self.kinds["operand:" + o[1]] = self.kinds.get("operand:" + o[1], 0) + 1
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        if args:
            name = "q%d" % self.n
            spec = "{integer} " if False else ""
            seen, fp, vals_, specs, acts = set(), [], [], [], []
            for p, t, byval, act in args:
                if p in seen:
                    continue
                seen.add(p)
                fp.append(p)
                if byval:
                    vals_.append(p)
                specs.append("%s %s" % ({'i': '{integer}', 'r': '{real}'}[t], p))
                acts.append(act)
            d = "{procedure} %s(%s); " % (name, ",".join(fp))
            if vals_:
                d += "{value} %s; " % ",".join(vals_)
            d += "; ".join(specs) + "; {begin} %s; NLCR {end}" % show
            call = "%s(%s)" % (name, ",".join(acts))
            st = "; ".join(pre + [call])
            where = self.loc
            (self.ldecl if where else self.decl).append(d)
        else:
            st = "; ".join(pre + [show + "; NLCR"])
        if self.loc:
            # locals live in a procedure of their own
            ln = "l%d" % self.n
            inner = "; ".join(["{integer} d,e,f; {real} u,v,t"] + self.ldecl + [st])
            self.decl.append("{procedure} %s; {begin} %s {end}" % (ln, inner))
            self.ldecl = []
            st = ln
        self.body.append(st)
        if out is None:
            self.fails = True
        else:
            self.exp.append(out)
        return not self.fails

    ldecl = ()

    def source(self):
        d = ["{integer} a,b,c; {real} x,y,z; {integer} {array} m[0:4]; {real} {array} w[0:4]",
             "{integer} {procedure} fi(n); {integer} n; fi:=n",
             "{real} {procedure} fr(n); {value} n; {real} n; fr:=n"] + self.decl
        return U("{begin} " + ";\n".join(d + self.body + ([] if self.fails else ["print(77)"])) + "\n{end}\n")


def bin_(op):
    return lambda t: ("%s%s%s" % (t[0], op, t[1]), None)


# ---------------------------------------------------------------- integer operations
def int_ops(r):
    """(kind, values, build, model)"""
    k = r.randrange(16)
    a = rnd_int(r)
    b = rnd_int(r)
    if k in (0, 1):
        if r.random() < .4:
            b = near_int(r, (MAXI if r.random() < .5 else -MAXI) - a)
        return "add", [a, b], lambda t: ("%s+%s" % tuple(t), 'i'), N.add
    if k in (2, 3):
        if r.random() < .4:
            b = near_int(r, a - (MAXI if r.random() < .5 else -MAXI))
        return "subtract", [a, b], lambda t: ("%s-%s" % tuple(t), 'i'), N.sub
    if k in (4, 5):
        if r.random() < .5 and a:
            b = max(-MAXI, min(MAXI, r.choice([1, -1]) * (MAXI // abs(a)) + r.randrange(-1, 2)))
        return "multiply", [a, b], lambda t: ("%s×%s" % tuple(t), 'i'), N.mul
    if k in (6, 7):
        if r.random() < .5 and b:
            a = max(-MAXI, min(MAXI, b * r.randrange(-5, 6) + r.randrange(-1, 2)))
        return "quotient", [a, b], lambda t: ("%s÷%s" % tuple(t), 'i'), N.idiv
    if k == 8:
        n = r.choice([0, 1, 2, 3, 4, 5, 8, 13, 25, 26, 27, 30, r.randrange(100)])
        base = r.choice([r.randrange(-3, 4), rnd_int(r), r.choice([-1, 1]) * (int(round(MAXI ** (1.0 / n))) + r.randrange(-1, 2)) if n else 7])
        base = max(-MAXI, min(MAXI, base))
        if n > 30 and abs(base) > 1:
            base = r.choice([-1, 0, 1])
        return "power", [base, n], lambda t: ("%s↑%s" % tuple(t), 'i'), N.ipow
    if k == 9:
        rel = r.choice('<≤=≥>≠')
        if r.random() < .5:
            b = near_int(r, a) if abs(a) < MAXI - 3 else a
        if r.random() < .3:     # against a real of about the same value
            b2 = N.mk((b << 1) + r.choice([-1, 0, 1]), -1) if b else N.mk(r.choice([-1, 1]), r.choice([-1, -30, -2000]))
            if r.random() < .5:
                return "compare-mixed", [a, b2], lambda t: ("%s%s%s" % (t[0], rel, t[1]), 'b'), lambda p, q: relv(rel, p, q)
            return "compare-mixed", [b2, a], lambda t: ("%s%s%s" % (t[0], rel, t[1]), 'b'), lambda p, q: relv(rel, p, q)
        return "compare", [a, b], lambda t: ("%s%s%s" % (t[0], rel, t[1]), 'b'), lambda p, q: relv(rel, p, q)
    if k == 10:
        return "sign", [a if r.random() < .6 else rnd_real(r)], lambda t: ("sign(%s)" % t[0], 'i'), N.sign
    if k == 11:
        v = near_real(r)
        return "entier", [v], lambda t: ("entier(%s)" % t[0], 'i'), N.floor_
    if k == 12:
        v = near_real(r)
        return "transfer", [v], lambda t: (t[0], 'T'), N.to_int
    if k == 13:
        return "negate", [a], lambda t: ("-%s" % t[0], 'i'), N.neg
    if k == 14:     # minus zero in all its guises
        z = r.choice(["(%s-%s)" % ("%s", "%s"), "(0×(-%s)÷%s)", "(-(%s-%s))", "(0÷(-abs1(%s)-%s))"])
        z = r.choice(["(%s-%s)", "(-(%s-%s))", "((%s-%s)×(-3))"])
        rel = r.choice('<≤=≥>≠')
        k2 = r.randrange(4)
        if k2 == 0:
            return "zero", [a], lambda t: (("%s" + rel + "0") % (z % (t[0], t[0])), 'b'), lambda p: relv(rel, 0, 0)
        if k2 == 1:
            return "zero", [a], lambda t: ("sign(%s)" % (z % (t[0], t[0])), 'i'), lambda p: 0
        if k2 == 2:
            return "zero", [a, b], lambda t: ("%s+%s" % (z % (t[0], t[0]), t[1]), 'i'), lambda p, q: q
        return "zero", [a, b], lambda t: ("%s-%s" % (t[1], z % (t[0], t[0])), 'i'), lambda p, q: q
    # chains, left to right
    c = rnd_int(r)
    o1, o2 = r.choice('+-'), r.choice('+-')
    f = {'+': N.add, '-': N.sub}
    return "chain", [a, b, c], lambda t: ("%s%s%s%s%s" % (t[0], o1, t[1], o2, t[2]), 'i'), \
        lambda p, q, s: f[o2](f[o1](p, q), s)


def relv(rel, a, b):
    c = N.cmp_num(a, b)
    return {'<': c < 0, '≤': c <= 0, '=': c == 0, '≥': c >= 0, '>': c > 0, '≠': c != 0}[rel]


def near_real(r):
    """A real near an integer, a half or the end of the integer range."""
    k = r.randrange(6)
    if k < 3:
        i = rnd_int(r)
        return N.mk(i * 4 + r.randrange(-3, 4), -2) if i else N.mk(r.choice([-1, 1]) * r.randrange(1, 8), -2)
    if k == 3:
        s = r.choice([-1, 1])
        return N.mk(s * ((MAXI << 13) + r.randrange(-(1 << 13), 1 << 14)), -13)
    if k == 4:
        i = rnd_int(r) or 3
        j = N.mk(i, 0)
        return N.mk((j.m << 1) + r.choice([-1, 1, -2, 2]), j.e - 1)
    return rnd_real(r)


def int_case(item):
    seed, variant = item
    r = random.Random(seed)
    p = Prog(r)
    p.ldecl = []
    while p.n < 40:
        kind, vals, build, model = int_ops(r)
        try:
            model(*vals)
            err = False
        except X1Error:
            err = True
        if err and p.n < 36 and r.random() < .85:
            continue        # errors end the program: keep most of them for the end
        if kind == "transfer":
            go = add_transfer(p, vals[0])
        else:
            go = p.add(kind, vals, build, model)
        if not go:
            p.kinds["stops:" + kind] = p.kinds.get("stops:" + kind, 0) + 1
            break
    return finish(p, seed, variant)


def add_transfer(p, v):
    """real value into an integer variable, element, value parameter."""
    r = p.r
    p.loc = False
    p.n += 1
    p.kinds["transfer"] = p.kinds.get("transfer", 0) + 1
    t = r.choice(["c", "m[1]", "vp"])
    p.inp.append(text_of(v))
    if t == "vp":
        p.decl.append("{procedure} q%d(n); {value} n; {integer} n; {begin} print(n); NLCR {end}" % p.n)
        st = "x:=read; q%d(x)" % p.n
    else:
        st = "x:=read; %s:=x; print(%s); NLCR" % (t, t)
    p.body.append(st)
    try:
        p.exp.append(N.fmt13(N.to_int(v)))
        return True
    except X1Error:
        p.fails = True
        return False


def finish(p, seed, variant):
    src = p.source()
    inp = ("\n".join(p.inp) + "\n").encode()
    res = tool(variant).a60(src, inp)
    if res.timeout:
        return unsure("watchdog")
    want = p.exp + ([''] if p.fails else ['77'])
    first = same_lines(want, res.text.split('\n'))
    good = first < 0 and (res.rc == 0) == (not p.fails) and res.rc in (0, 1) and not res.crashed()
    if p.fails and not res.err:
        good = False
    ev = dict(p.kinds)
    ev["evaluations"] = p.n
    if p.fails:
        ev["error-stop"] = 1
    if good:
        return ok(case_hash(src, inp), ev, sample={"seed": seed, "body": p.body[:4], "input": p.inp[:4], "output": [str(x) for x in p.exp[:4]]}, n=p.n)
    i = max(first, 0)
    e = [str(x) for x in want]
    msg = "wrong result of operation %d: %s\nexpected %r got %r (expected %s, exit status %s) %s" % (
        i, p.body[i] if i < len(p.body) else '', (e + ['<end>'] * (i + 1))[i], (res.text.split('\n') + ['<end>'] * (i + 1))[i],
        "error stop" if p.fails else "normal end", res.rc, res.etext[-300:])
    want = '\n'.join(e)
    return bad(case_hash(src, inp), msg, {"program.a60": src, "input.txt": inp, "expected.txt": want, "got.txt": res.brief()}, events=ev)


# ---------------------------------------------------------------- real operations
def real_ops(r):
    k = r.randrange(12)
    a = rnd_real(r)
    if r.random() < .15:
        a = rnd_int(r)
    x = r.random()
    if k < 4:
        # sum and difference: exponents close, or the small one just below half a unit
        m, e = N.to_me(a)
        be = e + r.choice([0, 0, 1, -1, 2, -20, -39, -40, -41, 39, 40, 41, r.randrange(-45, 46)])
        b = rnd_real(r, be)
        if r.random() < .25:
            mm = m if isinstance(a, R) else N.from_int(a).m
            ee = e if isinstance(a, R) else N.from_int(a).e
            if mm:
                try:
                    b = N.mk(-mm + r.choice([-1, 0, 1, 2, -2]), ee)      # cancellation
                except X1Error:
                    pass
        if r.random() < .1:
            b = rnd_int(r)
        if r.random() < .3:
            a, b = b, a
        if k < 2:
            return "add", [a, b], lambda t: ("%s+%s" % tuple(t), 'r'), N.add
        return "subtract", [a, b], lambda t: ("%s-%s" % tuple(t), 'r'), N.sub
    if k < 7:
        b = rnd_real(r)
        if r.random() < .4:
            m, e = N.to_me(a)
            tgt = r.choice([2047, 2046, -2048, -2049, -2047])     # exponent of the product
            b = rnd_real(r, max(-2088, min(2007, tgt - 40 - (e + m.bit_length() - 40) - 40 + r.randrange(0, 3))))
        if r.random() < .15:
            b = rnd_int(r)
        if r.random() < .2:
            a = N.mk(r.getrandbits(20) | 1 << 19, r.randrange(-40, 0))
            b = N.mk(r.getrandbits(21) | 1, r.randrange(-40, 0))
        return "multiply", [a, b], lambda t: ("%s×%s" % tuple(t), 'r'), N.mul
    if k < 10:
        b = rnd_real(r)
        if r.random() < .3:
            m, e = N.to_me(a)
            tgt = r.choice([2047, 2046, -2048, -2049, -2047])
            b = rnd_real(r, max(-2088, min(2007, (e + m.bit_length()) - tgt - 40 + r.randrange(-1, 3))))
        if r.random() < .2:
            b = rnd_int(r)
            if r.random() < .5:
                a = rnd_int(r)
        return "divide", [a, b], lambda t: ("%s/%s" % tuple(t), 'r'), N.div
    if k == 10:
        rel = r.choice('<≤=≥>≠')
        b = rnd_real(r)
        if isinstance(a, R) and r.random() < .7:
            try:
                b = N.mk(a.m + r.choice([-1, 0, 0, 1]), a.e)
            except X1Error:
                b = a
        return "compare", [a, b], lambda t: ("%s%s%s" % (t[0], rel, t[1]), 'b'), lambda p, q: relv(rel, p, q)
    if x < .3:
        return "negate", [a], lambda t: ("-%s" % t[0], 'r'), lambda p: N.neg(p)
    if x < .6:
        return "abs", [a], lambda t: ("abs(%s)" % t[0], 'r'), N.abs_
    if x < .8:
        return "copy", [a], lambda t: (t[0], 'r'), lambda p: p
    b, c = rnd_real(r, -20), rnd_real(r, -20)
    a = rnd_real(r, -20)
    return "chain", [a, b, c], lambda t: ("%s-%s×%s" % tuple(t), 'r'), lambda p, q, s: N.sub(p, N.mul(q, s))


def real_case(item):
    seed, variant = item
    r = random.Random(seed)
    p = Prog(r)
    p.ldecl = []
    while p.n < 40:
        kind, vals, build, model = real_ops(r)
        try:
            model(*vals)
            err = False
        except X1Error:
            err = True
        if err and p.n < 36 and r.random() < .85:
            continue
        if not p.add(kind, vals, build, model):
            p.kinds["stops:" + kind] = p.kinds.get("stops:" + kind, 0) + 1
            break
    return finish(p, seed, variant)


# ---------------------------------------------------------------- constants in the program text
def rnd_literal(r):
    d = lambda k: r.randrange(10 ** r.randrange(1, k + 1))
    k = r.randrange(12)
    if k == 0:
        return str(r.choice([MAXI - r.randrange(3), MAXI + 1 + r.randrange(3), r.randrange(1 << r.randrange(26, 70)), d(8), d(30)]))
    if k == 1:
        return '%d.%d' % (d(8), d(10))
    if k == 2:
        n = r.randrange(1, 22)
        return '%d.%0*d' % (d(14), n, r.randrange(10 ** n))
    if k == 3:
        return '%d⏨%d' % (d(13), r.randrange(-30, 31))
    if k == 4:
        return '%d.%d⏨%+d' % (d(8), d(10), r.randrange(-300, 301))
    if k == 5:
        return '⏨%s%d' % (r.choice(['', '+', '-']), r.randrange(600))
    if k == 6:
        return '.%d' % d(14)
    if k == 7:
        return '.%d⏨%d' % (d(14), r.randrange(-600, 600))
    if k == 8:
        return '%s%d%s' % ('0' * r.randrange(1, 6), d(9), r.choice(['', '.0', '.', '.50'][:2]))
    if k == 9:      # around powers of two
        v = (1 << r.randrange(20, 60)) + r.randrange(-2, 3)
        return str(v)
    if k == 10:     # exact halves of a 40-bit unit and their neighbours
        v = ((1 << 40) + 2 * r.getrandbits(39) + 1)
        return '%d%s' % (v, r.choice(['', '.0', '.00000001', '⏨0']))
    return '%d⏨-%d' % (d(12), r.randrange(1, 13))


def lit_value(l):
    m, _, e = l.partition('⏨')
    m = m or '1'
    i, _, f = m.partition('.')
    return Fraction(int((i or '0') + f)) * Fraction(10) ** (int(e or 0) - len(f)), int(e or 0) - len(f)


def lit_case(item):
    """Constants are printed; the same texts are also read by the procedure read."""
    seed, variant = item
    r = random.Random(seed)
    lits = [rnd_literal(r) for _ in range(30)]
    src = U("{begin} {real} x;\n" + ";\n".join(
        ("print(%s); NLCR" if r.random() < .6 else "x:=%s; print(x); NLCR") % l for l in lits) + ";\n" +
        "\n".join("x:=read; print(x); NLCR;" for l in lits) + "\nprint(77) {end}")
    inp = "\n".join(l if not l.startswith('⏨') else '1' + l for l in lits).replace('⏨', r.choice(['⏨', 'E', 'e'])) + "\n"
    res = tool(variant).a60(src, inp.encode())
    if res.timeout:
        return unsure("watchdog")
    o = res.text.split('\n')
    ev = {"constants": 0, "numbers read": 0, "constants not nearest": 0}
    files = {"program.a60": src, "input.txt": inp, "got.txt": res.brief()}
    if res.rc != 0 or len(o) != 61 or o[60] != '77' or res.crashed():
        return bad(case_hash(src), "constants: program failed, %d lines, %s" % (len(o), res.brief()[-500:]), files)
    for i, l in enumerate(lits):
        v, e10 = lit_value(l)
        for which, got in (("constant", o[i]), ("number read", o[30 + i])):
            ev[which + "s" if which == "constant" else "numbers read"] += 1
            plain = l.isdigit() and int(l) <= MAXI
            if plain:
                good = got == str(int(l))
            else:
                x = N.from_frac(v)
                good = got == N.fmt13(x)
                if not good and which == "constant" and x.m:
                    # the compiler computes the decimal scale in 52 bits: a neighbour is possible when the value lies near the middle
                    ev["constants not nearest"] += 1
                    tol = Fraction(1, 2) + Fraction(max(abs(e10), 4), 1000)
                    for nb in (-1, 1):
                        y = N.mk(x.m + nb, x.e)
                        if got == N.fmt13(y) and abs(y.frac() - v) <= tol * Fraction(2) ** x.e:
                            good = True
            if not good:
                return bad(case_hash(src), "%s %s: printed as %s, the nearest value is %s" % (which, l, got, N.fmt13(N.from_frac(v))), files)
    return ok(case_hash(src), ev, sample={"literals": lits[:5], "printed": o[:5]}, n=60)


# ---------------------------------------------------------------- elementary functions and powers
MAXR = Fraction(2) ** 2047
MINR = Fraction(1, 2 ** 2049)


class Doubtful(Exception):
    """The exact result lies so close to a limit of the range that both outcomes are right."""


def approx(t, tol=1):
    if t is None:
        raise X1Error("overflow")
    a = abs(t)
    if a >= MAXR * Fraction(10001, 10000):
        raise X1Error("overflow")
    if a >= MAXR * Fraction(9999, 10000):
        raise Doubtful
    if a and a <= MINR * Fraction(9999, 10000):
        return N.ZERO
    if a and a <= MINR * Fraction(10001, 10000) * 2:
        raise Doubtful
    return Approx(Fraction(t), Fraction(tol))


def fr(v):
    return Fraction(v) if N.is_int(v) else v.frac()


def pow_model(a, b):
    x, y = fr(a), fr(b)
    if N.is_int(b):
        if N.is_int(a) and b >= 0:
            return N.ipow(a, b)
        if a == 0 or x == 0:
            if b <= 0:
                raise X1Error("undefined")
            return N.ZERO
        if b == 0:
            return N.from_int(1)
        n = abs(b)
        tol = 1 + Fraction(2 * n if n > 10000 else 0)
        l = hp.ln(abs(x)) * b
        t = hp.exp(l)
        if t is not None and x < 0 and b & 1:
            t = -t
        if abs(l) < 3000 and n < 3000:
            t = x ** b
        return approx(t, tol)
    if x < 0:
        raise X1Error("undefined")
    if x == 0:
        if y <= 0:
            raise X1Error("undefined")
        return N.ZERO
    return approx(hp.power(x, y), 1)


def fun_ops(r):
    k = r.randrange(17)
    if k == 0:
        i = r.randrange(1, 8191)
        a = r.choice([i * i, i * i + 1, i * i - 1, rnd_int(r), 0, 1, 2])
    elif k == 1:
        a = rnd_real(r)
    if k in (0, 1):
        if N.sign(a) < 0 and r.random() < .9:
            a = N.neg(a)

        def m(v):
            if N.sign(v) < 0:
                raise X1Error("sqrt")
            return approx(hp.sqrt(fr(v)))
        return "sqrt", [a], lambda t: ("sqrt(%s)" % t[0], 'r'), m
    if k in (2, 3, 4):
        x = r.random()
        if x < .25:
            a = N.from_frac(Fraction(hp.pi_fixed(200), 1 << 201) * r.choice([r.randrange(-8, 9), r.randrange(-5000, 5000)]) or Fraction(1, 3))
        elif x < .5:
            a = N.mk(r.getrandbits(40) + 1, r.randrange(-45, -33))
        elif x < .6:
            a = rnd_int(r)
        elif x < .75:
            a = rnd_real(r, r.randrange(-40, -10))
        else:
            a = rnd_real(r)
        if r.random() < .5:
            a = N.neg(a)
        f = 0 if k == 2 or r.random() < .5 else 1
        x = abs(fr(a))
        # beyond 2**30 a one-unit change of the argument counts
        tol = 1 if x < 2 ** 30 else None

        def m(v):
            t = hp.sincos(fr(v))[f]
            if tol is None:
                q = approx(t)
                if isinstance(q, Approx):
                    q.err = min(Fraction(2), max(q.err, x * Fraction(1, 2 ** 39)))
                return q
            return approx(t)
        return ("sin", "cos")[f], [a], lambda t: ("%s(%s)" % (("sin", "cos")[f], t[0]), 'r'), m
    if k in (5, 6):
        a = r.choice([rnd_real(r), rnd_int(r), N.mk((1 << 40) + r.randrange(-9, 9), -40), rnd_real(r, r.randrange(-50, -30))])
        return "arctan", [a], lambda t: ("arctan(%s)" % t[0], 'r'), lambda v: approx(hp.atan(fr(v)))
    if k in (7, 8):
        a = r.choice([rnd_real(r), rnd_int(r), N.mk((1 << 40) + r.randrange(-99, 99), -40), rnd_real(r, r.randrange(-50, -30))])
        if N.sign(a) < 0 and r.random() < .9:
            a = N.neg(a)

        def m(v):
            if N.sign(v) <= 0:
                raise X1Error("ln")
            return approx(hp.ln(fr(v)))
        return "ln", [a], lambda t: ("ln(%s)" % t[0], 'r'), m
    if k in (9, 10):
        x = r.random()
        if x < .5:
            a = N.mk(r.getrandbits(40) + 1, r.randrange(-44, -29))
        elif x < .7:
            a = r.choice([r.randrange(1400, 1430), r.randrange(1300), rnd_int(r)])
        elif x < .8:
            a = N.from_frac(Fraction(hp.ln2_fixed(200), 1 << 200) * r.choice([2047, -2048, -2049, r.randrange(-2100, 2100)]) + Fraction(r.randrange(-9, 10), 1000))
        else:
            a = rnd_real(r)
        if r.random() < .5:
            a = N.neg(a)
        return "exp", [a], lambda t: ("exp(%s)" % t[0], 'r'), lambda v: approx(hp.exp(fr(v)))
    if k == 11:
        a = r.choice([rnd_real(r), rnd_int(r), 0])
        return "abs", [a], lambda t: ("abs(%s)" % t[0], 'r'), N.abs_
    if k == 12:
        a = r.choice([rnd_real(r), rnd_int(r), 0])
        return "sign", [a], lambda t: ("sign(%s)" % t[0], 'i'), N.sign
    # powers
    x = r.random()
    small = lambda: N.mk(r.getrandbits(40) + 1, r.randrange(-44, -34)) if r.random() < .7 else rnd_real(r)
    a = r.choice([r.randrange(-12, 13), rnd_int(r), small(), small(), N.neg(small()), 0, N.ZERO, N.mk((1 << 39) + r.randrange(-50, 50), -39)])
    if r.random() < .5:
        n = r.choice([0, 1, 2, 3, 4, 5, 7, 10, 31, 64, 100, 1000, 2047, r.randrange(3000), r.randrange(10000)])
        if r.random() < .3:     # large exponents: bases so near to one that the result is within the range, or just not
            n = r.choice([r.randrange(10000, 140000), 1 << r.randrange(13, 26), (1 << r.randrange(13, 26)) + r.randrange(-3, 4), r.randrange(1 << 26), (1 << 26) - 1])
            n = min(n, (1 << 26) - 1)
            d = int((1 << 39) * r.choice([1, 1, r.random()]) * r.choice([1400.0, 700, 50, 1, 1500]) / n) + r.randrange(3)
            a = r.choice([1, -1, N.mk(1, 0), N.mk((1 << 39) + d, -39), N.mk((1 << 40) - d, -40), N.neg(N.mk((1 << 39) + d, -39))])
        b = n if r.random() < .5 else -n
    else:
        b = r.choice([small(), N.neg(small()), N.mk(r.choice([1, 3, 5]), -1), N.mk(r.randrange(-9, 9) or 1, 0), N.ZERO])
        if N.sign(a) < 0 and r.random() < .9:
            a = N.neg(a)
    kind = "power-%s%s%s" % ('i' if N.is_int(a) else 'r', 'i' if N.is_int(b) else 'r', " large" if N.is_int(b) and abs(b) > 10000 else "")
    return kind, [a, b], lambda t: ("%s↑%s" % tuple(t), 'r' if kind[:8] != "power-ii" or b < 0 else 'i'), pow_model


def fun_case(item):
    seed, variant = item
    r = random.Random(seed)
    p = Prog(r)
    p.ldecl = []
    while p.n < 30:
        kind, vals, build, model = fun_ops(r)
        try:
            model(*vals)
            err = False
        except X1Error:
            err = True
        except Doubtful:
            continue
        if err and p.n < 27 and r.random() < .93:
            continue
        if not p.add(kind, vals, build, model):
            p.kinds["stops:" + kind] = p.kinds.get("stops:" + kind, 0) + 1
            break
    return finish(p, seed, variant)
