"""Formatted output: every printed field against the exact decimal layout."""
import random
from fractions import Fraction

from . import num as N
from .core import ok, bad, unsure, case_hash
from .harness import tool
from .numtest import U, rnd_int, rnd_real, text_of

TEN = Fraction(10)


def exact(v):
    return Fraction(v) if N.is_int(v) else v.frac()


def rounded(y, slack):
    """All integers that are a correct rounding of y (ties and the stated slack either way)."""
    q = y.numerator // y.denominator
    w = int(slack) + 1
    return [c for c in range(q - w, q + w + 2) if abs(y - c) <= Fraction(1, 2) + slack and c >= 0]


def signs(v, plus='+', minus='-'):
    if N.is_int(v):
        return [minus] if v < 0 else [plus]
    if v.m == 0:
        return [plus, minus]        # a real zero may be negative
    return [minus] if v.m < 0 else [plus]


def flot(n, m, v):
    """Set of acceptable texts."""
    if not (1 <= n <= 13 and 1 <= m <= 3):
        n, m = 13, 3
    a = abs(exact(v))
    out = set()
    if a == 0:
        for s in signs(v):
            out.add("%s.%s⏨+%s%s " % (s, "0" * n, " " * (m - 1), "0"))
        return out
    # a = f * 10**x with .1 <= f < 1
    _, x = N.dec_digits(a.numerator, a.denominator, 60)
    if a < TEN ** x:
        x -= 1
    x += 1
    edge = TEN ** (x - 1) * (1 + Fraction(1, 1 << 55)) > a or a > TEN ** x * (1 - Fraction(1, 1 << 55))
    xs = [x]
    if edge:        # next to a power of ten, where the exponent taken from a logarithm may go either way
        xs += [x - 1] if a < TEN ** x / 2 else [x + 1]
    for xx in xs:
        if abs(xx) > 10 ** m - 1:
            out |= flot(13, 3, v)
            if not edge:
                return out
            continue
        for q in rounded(a / TEN ** xx * 10 ** n, Fraction(1, 20000)):
            e = xx
            if q == 10 ** n:
                q //= 10
                e += 1
            if q > 10 ** n or q < 10 ** (n - 1):
                continue
            if abs(e) > 10 ** m - 1:
                out |= flot(13, 3, v)
                continue
            ds = str(abs(e)).rjust(m)
            for s in signs(v):
                out.add("%s.%s⏨%s%s " % (s, str(q).rjust(n, '0'), '-' if e < 0 else '+', ds))
    return out


def fixt(n, m, v, sign):
    if n < 0 or m < 0 or n + m > 21 or n + m < 1:
        return flot(13, 3, v)
    y = abs(exact(v)) * 10 ** m
    # the error of the host's 64-bit arithmetic in units of the last digit
    slack = Fraction(10) ** (n + m) / (1 << 61)
    out = set()
    if y >= 10 ** (n + m) * 2:
        return flot(13, 3, v)
    for q in rounded(y, slack):
        if q >= 10 ** (n + m):
            out |= flot(13, 3, v)
            continue
        d = str(q).rjust(n + m, '0')
        ip, fp = d[:n], d[n:]
        if n:
            t = str(int(ip)).rjust(n)
        else:
            t = ''
        body = t + ('.' + fp if m else '') + ' '
        for s in (signs(v) if sign else [' ']):
            out.add(s + body)
    return out


# ---------------------------------------------------------------- generation
def rnd_val(r):
    k = r.randrange(12)
    if k < 3:
        return rnd_int(r)
    if k == 3:
        return 0 if r.random() < .6 else N.ZERO
    if k == 4:
        return rnd_real(r)
    if k == 5:      # powers of ten and their neighbours
        e = r.choice([r.randrange(-20, 20), r.randrange(-101, 102), r.randrange(-600, 600)])
        v = N.from_frac(TEN ** e)
        v = N.mk(v.m + r.choice([0, 0, 1, -1, 2, -3]), v.e)
    elif k in (6, 7):   # all nines, and halves of the last place
        d = r.randrange(1, 13)
        i = 10 ** d - r.choice([0, 1, 5])
        v = N.from_frac(Fraction(i) / 10 ** r.randrange(0, d + 4) + r.choice([0, 0, 1, -1]) * Fraction(1, 10 ** r.randrange(1, 14)))
    elif k == 8:    # exact halves, quarters
        v = N.mk(r.randrange(-999, 1000) or 5, -r.randrange(1, 8))
    elif k == 9:    # a few decimal digits
        v = N.from_frac(Fraction(r.randrange(1, 10 ** r.randrange(1, 12))) / 10 ** r.randrange(0, 12))
    else:           # small numbers around .1, .01
        v = N.mk(r.getrandbits(40) | 1, r.randrange(-80, 6))
    if v.m == 0:
        return N.ZERO
    return N.neg(v) if r.random() < .4 else v


def rnd_layout(r, kind, v):
    if kind == 'FLOT':
        k = r.random()
        if k < .8:
            return r.randrange(1, 14), r.randrange(1, 4)
        if k < .9:
            return r.choice([0, -1, 13, 14, 20]), r.randrange(1, 4)
        return r.randrange(1, 14), r.choice([0, -1, 4, 7])
    k = r.random()
    if k < .25:
        return r.randrange(0, 22), r.randrange(0, 22)
    if k < .3:
        return r.choice([-1, -5, 0, 21, 22, 67108863]), r.choice([0, 0, -1, 1, 21, 22])
    # close to the size of the number
    a = abs(exact(v))
    x = 0
    while x < 20 and a >= 10 ** x:
        x += 1
    n = max(0, x + r.choice([-1, 0, 0, 0, 1, 2, 3]))
    return n, r.choice([0, 0, 1, 2, 3, 5, 8, r.randrange(0, 18)])


CH = list("0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ+-×/÷↑>≥=≤<≠¬∧∨⊃≡,.⏨:;()[]\"?  \t")
ALIAS = {'×': ['×', '*'], '⏨': ['⏨', '@'], '↑': ['↑', '|∧'], '≥': ['≥', '_>'], '≤': ['≤', '_<'], '≠': ['≠', '|='], '≡': ['≡', '_='],
         '⊃': ['⊃', '_¬'], '÷': ['÷', '_:']}


def rnd_text(r, depth=0):
    """(source, printed)"""
    s = p = ''
    for _ in range(r.choice([0, 1, 2, 3, 5, 8, 20, 60])):
        k = r.random()
        if k < .05 and depth < 3:
            a, b = rnd_text(r, depth + 1)
            o, c = r.choice([('`', "'"), ('|<', '|>'), ('`', '|>')])
            s += o + a + c
            p += "`" + b + "'"
            continue
        if k < .08:
            s += '\n'
            p += '\n'
            continue
        if k < .12:
            s += ':='
            p += ':='
            continue
        c = r.choice(CH)
        if c == ':' or c == '=' and s.endswith(':'):
            # ':' then '=' would read as one symbol (printed the same)
            pass
        q = ALIAS.get(c)
        s += r.choice(q) if q else c
        p += c
    return s, p


def case(item):
    seed, variant = item
    r = random.Random(seed)
    decl = ["{integer} a,b,i; {real} x,y; {integer} {array} m[0:3]; {real} {array} w[0:3]",
            "{procedure} pf(n,m,x); {value} n,m,x; {integer} n,m; {real} x; FIXT(n,m,x)",
            "{procedure} pa(n,m,x); {integer} n,m; {real} x; {begin} {integer} k; k:=n; ABSFIXT(k,m,x) {end}",
            "{procedure} pe(n,m,x); {value} n; {integer} n,m; {real} x; FLOT(n,m,x)",
            "{procedure} pt(s); {string} s; PRINTTEXT(s)",
            "{procedure} pu(s); {string} s; {begin} {integer} d; d:=5; pt(s) {end}",
            "{procedure} pv(f,s); {procedure} f; {string} s; f(s)"]
    body, inp, want, ev = [], [], [], {}

    def bump(k):
        ev[k] = ev.get(k, 0) + 1

    for _ in range(r.randrange(10, 40)):
        k = r.randrange(14)
        if k >= 12:
            # plain output
            q = r.randrange(6)
            if q == 0:
                n = r.choice([-3, 0, 1, 2, 7, 40, 200])
                body.append(r.choice(["SPACE(%s)", "i:=%s; SPACE(i)", "SPACE(%s+0)"]) % (n if n >= 0 else "(%d)" % n))
                want.append({" " * max(0, n)})
            elif q == 1:
                body.append("TAB")
                want.append({"\t"})
            elif q == 2:
                body.append("NLCR")
                want.append({"\n"})
            elif q == 3:
                s, p = rnd_text(r)
                body.append(r.choice(["PRINTTEXT(`%s')", "pt(`%s')", "PRINTTEXT(|<%s|>)", "pu(`%s')", "pv(PRINTTEXT,`%s')", "pv(pu,`%s')"]) % s)
                want.append({p})
                bump("text")
                continue
            else:
                vs = [rnd_val(r) for _ in range(r.randrange(1, 7))]
                txt = []
                for v in vs:
                    if N.is_int(v):
                        txt.append("(%d)" % v if v < 0 else str(v))
                    else:
                        n = "w[%d]" % len(txt) if len(txt) < 4 else None
                        if n is None:
                            n = "3"
                            vs[len(txt)] = 3
                            txt.append(n)
                            continue
                        body.append("%s:=read" % n)
                        want.append({""})
                        inp.append(text_of(v))
                        txt.append(n)
                body.append("print(%s)" % ",".join(txt))
                want.append({" ".join(N.fmt13(v) for v in vs)} if all(N.is_int(v) or v.m for v in vs) else
                            {" ".join(c) for c in zs(vs)})
                bump("print-list")
                continue
            bump("plain")
            continue
        kind = r.choice(['FIXT', 'FIXT', 'ABSFIXT', 'FLOT', 'FLOT'])
        v = rnd_val(r)
        n, m = rnd_layout(r, kind, v)
        if kind == 'FLOT' and r.random() < .2:
            # rounded up to a power of ten, where the exponent gets one more digit, or nearly so
            n, m = r.randrange(1, 14), r.randrange(1, 4)
            x = r.choice([1, 1, -1]) * (10 ** r.choice([1, 2, 2, m]) - r.choice([0, 0, 1, 1, 1, 2])) if r.random() < .8 else r.randrange(-600, 600)
            x = max(-610, min(610, x))
            v = N.from_frac((1 - Fraction(r.choice([1, 3, 4, 6, 7, 9, 12, 20]), 10 ** (n + 1))) * TEN ** x)
            if r.random() < .4:
                v = N.neg(v)
            bump("rounding to a power of ten")
        elif kind == 'FLOT' and r.random() < .25:
            m = None
        exp = flot(n, 2 if m is None else m, v) if kind == 'FLOT' else fixt(n, m, v, kind == 'FIXT')
        # where the value is
        if N.is_int(v) and r.random() < .7:
            ld, ref = r.choice([("", "(%d)" % v if v < 0 else "%d" % v), ("a:=%d" % v, "a"), ("m[2]:=%d" % v, "m[2]")])
        else:
            inp.append(text_of(v))
            ld, ref = r.choice([("x:=read", "x"), ("w[1]:=read", "w[1]"), ("", "read"), ("y:=read", "(y)")])
        if ld:
            body.append(ld)
            want.append({""})

        def lay(z):
            t = str(z) if z >= 0 else "(%d)" % z if r.random() < .5 else "%d" % z
            return t

        if r.random() < .3:
            body.append("b:=%d" % n)
            want.append({""})
            tn = "b"
        else:
            tn = lay(n)
        if m is None:
            call = "FLOT(%s,%s)" % (tn, ref)
        else:
            f = kind
            if r.random() < .4:
                f = {'FIXT': 'pf', 'ABSFIXT': 'pa', 'FLOT': 'pe'}[kind]
            call = "%s(%s,%s,%s)" % (f, tn, lay(m), ref)
        body.append(call)
        want.append(exp)
        bump(kind)
        if len(exp) > 1:
            bump("tolerant")
    # keep fields apart with a mark that no field contains
    src = U("{begin} " + ";\n".join(decl + ["%s; PRSYM(98)" % b if w != {""} else b for b, w in zip(body, want)]) + "\n{end}\n")
    src = src.replace("PRSYM(98)", "PRINTTEXT(`#S')").replace("#S", "MARK")
    fields = [(b, w) for b, w in zip(body, want) if w != {""} or b.startswith(("SPACE", "i:=", "PRINTTEXT", "pt", "pu", "pv"))]
    # a statement with an empty expected text still has a mark only if it was given one
    marked = [(b, w) for b, w in zip(body, want) if w != {""}]
    data = ("\n".join(inp) + "\n").encode()
    res = tool(variant).a60(src, data)
    if res.timeout:
        return unsure("watchdog")
    got = res.text.split("MARK")
    key = case_hash(src, data)
    err = None
    if res.rc != 0 or res.err:
        err = "the run ended with status %s: %s" % (res.rc, (res.err.decode("utf-8", "replace") + res.text)[-300:])
    tail = got.pop() if got else ''
    if err is None and len(got) != len(marked) or tail:
        err = err or "expected %d fields, got %d" % (len(marked), len(got))
    for i, (b, w) in enumerate(marked):
        if i < len(got) and got[i] not in w:
            err = "%s printed %r, expected %s" % (b, got[i], " or ".join(repr(x) for x in sorted(w)))
            break
    del fields
    if err:
        return bad(key, err, {"program.a60": src, "input.txt": data, "got.txt": res.brief()}, events=ev)
    return ok(key, ev, sample={"seed": seed, "calls": [b for b, _ in marked[:4]], "fields": got[:4]}, n=len(marked))


def zs(vs):
    import itertools
    return itertools.product(*[[N.fmt13(v)] if N.is_int(v) or v.m else ["0", "-0"] for v in vs])
