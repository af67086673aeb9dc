"""Input: read, RESYM and PRSYM against a model of the input text."""
import random
import re
from fractions import Fraction

from . import num as N
from .num import X1Error
from .core import ok, bad, skip, unsure, case_hash
from .diff import norm
from .harness import tool
from .numtest import U

CODES = {}
for _i, _c in enumerate("0123456789abcdefghijklmnopqrstuvwxyz"):
    CODES[_c] = _i
for _i, _c in enumerate("ABCDEFGHIJKLMNOPQRSTUVWXYZ"):
    CODES[_c] = 37 + _i
for _i, _c in enumerate("+-×/÷↑>≥=≤<≠¬∧∨⊃≡"):
    CODES[_c] = 64 + _i
CODES.update({',': 87, '.': 88, '⏨': 89, ':': 90, ';': 91, ' ': 93, '(': 98, ')': 99, '[': 100, ']': 101, '`': 102, "'": 103,
              '\t': 118, '\n': 119, '"': 121, '?': 122, '|': 162, '_': 163})
SYMS = {v: k for k, v in CODES.items()}
SYMS[92] = ":="
CODES['*'] = 66
CODES['@'] = 89
NUM = re.compile(rb'[+-]?(?:[0-9]*(?:\.[0-9]*)?)(?:(?<=[0-9])(?:[eE])[+-]?[0-9]*|(?<=[0-9]\.)(?:[eE])[+-]?[0-9]*)?')


class Input:
    def __init__(self, data):
        self.d = data
        self.p = 0

    def read(self):
        """A number (exact) or X1Error."""
        d, p = self.d, self.p
        while p < len(d) and d[p:p + 1] in b" \t\n\v\f\r":
            p += 1
        # the number may use ⏨ for the E
        t = b''
        sign = mant = dec = sci = False
        while p < len(d):
            c = d[p:p + 1]
            w = 1
            if d[p:p + 3] == b"\xe2\x8f\xa8":
                c, w = b'E', 3
            if not t and c in b"+-":
                pass
            elif c.isdigit():
                mant = True
            elif c == b'.' and not dec and not sci:
                dec = True
            elif c in b"eE" and not sci and mant:
                sci = True
                t += c
                p += w
                if d[p:p + 1] in (b'+', b'-'):
                    t += d[p:p + 1]
                    p += 1
                continue
            else:
                break
            t += c
            p += w
        del sign
        m = re.fullmatch(rb'([+-]?)([0-9]*)\.?([0-9]*)(?:[eE]([+-]?[0-9]+))?', t)
        if not m or not (m.group(2) or m.group(3)):
            raise X1Error("not a number")
        # the symbol that ends the number goes with it, except a sign
        if p < len(d) and d[p:p + 1] not in (b'+', b'-'):
            if d[p] >= 128:
                raise Unclear
            p += 1
        if len(m.group(4) or b'') > 5:
            raise Unclear
        self.p = p
        f = m.group(3).decode()
        v = Fraction(int(m.group(2).decode() + f or '0')) * Fraction(10) ** (int(m.group(4) or 0) - len(f))
        if m.group(1) == b'-':
            v = -v
        r = N.from_frac(v)          # may overflow
        if v.denominator == 1 and abs(v) <= N.MAXINT:
            return int(v)
        return r

    def symbol(self):
        d = self.d
        while True:
            if self.p >= len(d):
                return 255
            b = d[self.p]
            if b == 13:
                self.p += 1
                continue
            n = 1 if b < 128 else 2 if b in (0xc2, 0xc3) else 3 if b == 0xe2 else 0
            if n == 0:
                raise X1Error("bad character")
            s = d[self.p:self.p + n]
            if len(s) < n:
                # cut off in the middle: end of input or an error, but no symbol
                raise Unclear
            try:
                c = CODES[s.decode()]
            except (KeyError, UnicodeDecodeError):
                raise X1Error("bad character")
            self.p += n
            return c


class Unclear(Exception):
    pass


def rnd_number(r):
    k = r.randrange(9)
    d = lambda n: ''.join(r.choice("0123456789") for _ in range(r.randrange(1, n + 1)))
    s = r.choice(['', '', '', '+', '-', '-'])
    if k < 3:
        t = d(7)
    elif k == 3:
        t = d(12)
    elif k == 4:
        t = d(6) + '.' + d(9)
    elif k == 5:
        t = r.choice(['.' + d(9), d(5) + '.'])
    else:
        t = r.choice([d(4), d(3) + '.' + d(8), '.' + d(12)])
        t += r.choice(['e', 'E', '⏨', '⏨']) + r.choice(['', '+', '-']) + (d(2) if r.random() < .9 else str(r.randrange(700)))
    return s + t


def rnd_text(r, n):
    out = []
    for _ in range(n):
        k = r.randrange(12)
        if k < 4:
            out.append(''.join(r.choice(list(CODES)) for _ in range(r.randrange(1, 12))))
        elif k < 6:
            out.append(r.choice([' ', '\n', '\t', '\r\n', '  ', ' \n ']))
        elif k < 10:
            out.append(rnd_number(r) + r.choice([' ', '\n', ',', ';', '\r\n', '/', ':', ')', '', '\t']))
        else:
            out.append(r.choice(["be", "ed", "_b_e_g_i_n", "x := a + 3;", "|<|>", "`st'", "|∧", "_<", "E5", "e", "+", "."]))
    return ''.join(out)


def case(item):
    seed, variant = item
    r = random.Random(seed)
    nd = r.randrange(2, 14)
    body, want = [], []
    data = b''
    ev = {}

    def bump(k, n=1):
        ev[k] = ev.get(k, 0) + n

    # the input is made for the operations, with random parts between and a wrong part at times
    ops = []
    for _ in range(nd):
        k = r.randrange(10)
        if k < 5:
            n = r.randrange(1, 5)
            ops.append(('read', n))
            sep = r.choice([' ', '\n', ',', '\t', '\r\n', ';', ' \n', ', ', ';\n\t', '', 'x', ')'])
            for _ in range(n):
                s = sep if r.random() < .8 else r.choice([' ', '\n', '  ', ',', '', ':'])
                data += (r.choice(['', '', ' ', '\n ']) + rnd_number(r) + s).encode()
        elif k < 8:
            t = rnd_text(r, r.randrange(1, 5))
            ops.append((r.choice(['sym', 'copy']), max(1, len(t) + r.choice([0, 0, 0, -1, 1, -3]))))
            data += t.encode()
        else:
            t = rnd_text(r, r.randrange(1, 6)).replace(';', '') + ';'
            ops.append(('until', 0))
            data += t.encode()
    if r.random() < .25:
        ops.append(('rest', 0))
    elif r.random() < .15:
        ops.append(('read', 1))
    if r.random() < .08:
        i = r.randrange(len(data))
        data = data[:i] + bytes([r.randrange(256)]) + data[i + r.randrange(2):]
    if r.random() < .08:
        data = data[:r.randrange(len(data) + 1)]
    decl = ["{integer} i,n; {real} x; {array} w[0:5]",
            "{real} {procedure} rd; rd:=read", "{integer} {procedure} rs; rs:=RESYM",
            "{procedure} show(a); {real} a; {begin} x:=a; print(x); NLCR {end}",
            "{procedure} showv(a); {value} a; {real} a; {begin} print(a); NLCR {end}",
            "{procedure} out(s); {value} s; {integer} s; PRSYM(s)"]
    inp = Input(data)
    fails = False
    try:
        for op, n in ops:
            if op == 'read':
                for _ in range(n):
                    body.append(r.choice(["x:=read; print(x); NLCR", "print(read); NLCR", "w[3]:=read; print(w[3]); NLCR", "show(read)", "showv(read)",
                                          "print(rd); NLCR", "show(rd)", "showv(rd)"]))
                    want.append(norm(N.fmt13(inp.read())) + '\n')
                    bump('read')
            elif op == 'sym':
                body.append("{for} i:=1 {step} 1 {until} %d {do} {begin} print(%s); SPACE(1) {end}; NLCR" % (n, r.choice(["RESYM", "rs", "RESYM+0"])))
                for _ in range(n):
                    want.append("%d " % inp.symbol())
                    bump('RESYM')
                want.append("\n")
            elif op == 'copy':
                body.append("{for} i:=1 {step} 1 {until} %d {do} {begin} n:=RESYM; {if} n<255 {then} %s {end}; NLCR" % (n, r.choice(["PRSYM(n)", "out(n)", "PRSYM(n+0)"])))
                for _ in range(n):
                    c = inp.symbol()
                    bump('RESYM')
                    if c < 255:
                        want.append(SYMS[c])
                        bump('PRSYM')
                want.append("\n")
            elif op == 'until':
                body.append("{for} n:=RESYM {while} n≠91 ∧ n<255 {do} %s; NLCR" % r.choice(["PRSYM(n)", "out(n)"]))
                while True:
                    c = inp.symbol()
                    bump('RESYM')
                    if c == 91 or c == 255:
                        break
                    want.append(SYMS[c])
                    bump('PRSYM')
                want.append("\n")
            else:
                body.append("i:=0; {for} n:=RESYM {while} n<255 {do} i:=i+n+1; print(i); print(RESYM); print(RESYM); NLCR")
                s = 0
                while True:
                    c = inp.symbol()
                    bump('RESYM')
                    if c == 255:
                        break
                    s += c + 1
                want.append("%d255255\n" % s)
                bump('end of input')
    except X1Error:
        fails = True
        bump('stops')
    except Unclear:
        return skip("not judged")
    src = U("{begin} " + ";\n".join(decl + body + ["print(77)"]) + "\n{end}\n")
    res = tool(variant).a60(src, data)
    if res.timeout:
        return unsure("watchdog")
    exp = ''.join(want) + ('' if fails else '77')
    got = res.text
    same = norm_lines(got) == norm_lines(exp)
    good = same and (res.rc == (1 if fails else 0)) and bool(res.err) == fails and not res.crashed()
    key = case_hash(src, data)
    if good:
        return ok(key, ev, sample={"seed": seed, "input": data[:60].decode('utf-8', 'replace'), "output": exp[:60]}, n=len(want))
    i = 0
    while i < min(len(got), len(exp)) and got[i] == exp[i]:
        i += 1
    return bad(key, "wrong input: expected %r..., got %r... (%s expected, exit status %s) %s" %
               (exp[max(0, i - 20):i + 40], got[max(0, i - 20):i + 40], "error stop" if fails else "normal end", res.rc, res.etext[-200:]),
               {"program.a60": src, "input.txt": data, "expected.txt": exp, "got.txt": res.brief()}, events=ev)


def norm_lines(s):
    return [norm(x) for x in s.split('\n')]


# ---------------------------------------------------------------- whole texts copied
def copy_case(item):
    """A text of all symbols copied through RESYM and PRSYM; every code from 0 to 122 printed by PRSYM."""
    seed, variant = item
    r = random.Random(seed)
    text = ''.join(r.choice(list(SYMS.values())) if r.random() < .7 else r.choice("abc \n") for _ in range(r.randrange(1, 1500)))
    src = U(r.choice([
        "{begin} {integer} c; again: c:=RESYM; {if} c<255 {then} {begin} PRSYM(c); {goto} again {end} {end}",
        "{begin} {integer} c; {for} c:=RESYM {while} c≠255 {do} PRSYM(c) {end}",
        "{begin} {procedure} cp; {begin} {integer} c; c:=RESYM; {if} c≠255 {then} {begin} PRSYM(c); cp {end} {end}; cp {end}",
        "{begin} {integer} c,n; {integer} {array} b[0:2000]; n:=-1; {for} c:=RESYM {while} c≠255 {do} {begin} n:=n+1; b[n]:=c {end};"
        " {for} c:=0 {step} 1 {until} n {do} PRSYM(b[c]) {end}"]))
    data = text.replace('\n', '\r\n') if r.random() < .2 else text
    if r.random() < .3:
        data = data.replace('×', '*').replace('⏨', '@')
    res = tool(variant).a60(src, data.encode())
    if res.timeout:
        return unsure("watchdog")
    key = case_hash(src, data)
    if res.rc or res.err or res.text != text:
        return bad(key, "copied text differs: %r" % res.text[:200], {"program.a60": src, "input.txt": data, "got.txt": res.brief()})
    return ok(key, {"symbols copied": len(text)}, n=len(text))


# ---------------------------------------------------------------- symbols the X1 does not have
def near(r):
    """A symbol that is not in the code, one byte away from one that is."""
    while True:
        s = r.choice([c for c in CODES if ord(c) > 127]).encode()
        i = r.randrange(1, len(s)) if r.random() < .9 else 0
        t = bytearray(s)
        t[i] = t[i] ^ (1 << r.randrange(6)) if r.random() < .5 else (t[i] & 0xc0) | r.randrange(64)
        try:
            u = bytes(t).decode()
        except UnicodeDecodeError:
            continue
        if len(u) == 1 and u not in CODES and ord(u) > 159:
            return u


def near_case(item):
    """Symbols next to those of the code are refused by RESYM and do not take part in a number."""
    seed, variant = item
    r = random.Random(seed)
    u = near(r)
    before = ''.join(r.choice(list(SYMS.values())) for _ in range(r.randrange(0, 30)))
    if r.random() < .5:
        # RESYM
        data = before + u + r.choice(["", "x", "12;", "\n"])
        src = "{begin} {integer} c; {for} c:=RESYM {while} c<255 {do} PRSYM(c); print(77) {end}"
        want = before
        k = "unknown symbol: RESYM"
    else:
        d = "".join(r.choice("123456789") for _ in range(r.randrange(1, 6)))
        how = r.randrange(3)
        if how == 0:
            # where the scale factor would begin
            data = d + u + r.choice("123") + r.choice(["", " "])
            want = d
        elif how == 1:
            data = u + d + " "
            want = ''
        else:
            data = r.choice(["", " "]) + r.choice("+-") + u + d + " "
            want = ''
        src = "{begin} {real} x; x:=read; print(x); NLCR; PRSYM(90); x:=RESYM {end}"
        k = "unknown symbol: read"
    res = tool(variant).a60(U(src), data.encode())
    if res.timeout:
        return unsure("watchdog")
    key = case_hash(src, data)
    if k.endswith("RESYM"):
        good = res.text == want and res.rc == 1 and res.err and not res.crashed()
    else:
        # either the number before the symbol, or an error stop; never another number
        first = norm(res.text.split('\n')[0]) if res.text else ''
        good = first in ('', norm(want)) and not res.crashed() and (res.rc == 0 or res.err) and (want or res.rc == 1)
    if not good:
        return bad(key, "%s U+%04X in %r: printed %r, exit status %s %s" % (k, ord(u), data, res.text[:100], res.rc, res.etext[-100:]),
                   {"program.a60": U(src), "input.txt": data.encode(), "got.txt": res.brief()})
    return ok(key, {k: 1}, sample={"symbol": "U+%04X" % ord(u), "input": data[:60]})
