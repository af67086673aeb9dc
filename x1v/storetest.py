"""P19: storage. Programs repeat statements with hardly any free stack; recursion goes to the end of the stack."""
import json
import os
import random
import re
import subprocess

from . import diff, gen, harness, lang
from .core import bad, ok, skip, unsure, case_hash
from .libtest import U

CAP = 1 << 23       # more cells than this are never asked for


class Prog:
    """A compiled program that reads N (cells to occupy) and K (repetitions)."""

    def __init__(self, t, src):
        self.t, self.src = t, src
        self.scr = harness.Scratch()
        self.d = self.scr.__enter__()
        c = t.compile(self.d, src)
        self.c = c
        self.good = c.rc == 0 and not c.crashed()
        with open(self.d + "/q.x1", "wb") as f:
            f.write(c.out)
        self.runs = 0
        self.cpu = 3 if t.variant == 'plain' else 8

    def run(self, *nums, inp=b""):
        self.runs += 1
        x = harness.run1([self.t.sim, "q.x1"], self.d, b" ".join(b"%d" % n for n in nums) + b" " + inp + b"\n", self.t.env(), cpu=self.cpu)
        if x.hang or x.timeout:
            raise TimeoutError
        return x

    def close(self):
        self.scr.__exit__()


def clean(res):
    return res.rc == 0 and not res.err and not res.crashed()


def overflowed(res):
    """Ended by exhausted storage: an error message and status 1."""
    if not (res.rc == 1 and len(res.err.strip()) > 5 and not res.crashed()):
        return False
    words = message(res).split()
    return any(words == w for w in _msg) or not _msg


def message(res):
    return re.sub(r"[0-9]+", "", res.etext.strip().split("\n")[0])


_msg = []       # the messages of programs that exhaust storage in the simplest ways


def learn(t):
    """What is said when storage is exhausted by an array, by recursion, by a block."""
    if _msg:
        return
    for src in ("{begin} {integer} N; N := 9000000; {begin} {integer} {array} A[1:N]; A[N] := 3 {end} {end}",
                "{begin} {procedure} P; P; P {end}", "{begin} {integer} {procedure} f; f := 1 + f; print(f) {end}",
                "{begin} {procedure} P(n); {integer} n; P(n + 1); P(1) {end}", "{begin} {procedure} P; {begin} {integer} {array} A[1:9]; P {end}; P {end}"):
        p = Prog(t, U(src))
        try:
            p.cpu = 20
            x = p.run()
            if x.rc == 1 and x.etext.strip():
                _msg.append(message(x).split())
        except TimeoutError:
            pass
        p.close()


def largest(f, lo, hi):
    """The largest n in lo..hi with f(n), for falling f; f(lo) holds."""
    while lo < hi:
        m = (lo + hi + 1) // 2
        if f(m):
            lo = m
        else:
            hi = m - 1
    return lo


def edge(f, cap):
    """The largest n below cap with f(n), for falling f: searched from above in growing steps."""
    step = 32
    bad_ = cap + 1
    while step < 70000 and step < cap:
        n = cap - step
        if f(n):
            return largest(f, n, bad_ - 1)
        bad_ = n
        step *= 2
    return None


_cap = {}


def capacity(t):
    """Cells an array in a block can have in an otherwise almost empty program; found once for each build."""
    if t.dir not in _cap:
        name = "%s/x1v-storage" % t.dir
        if os.path.exists(name):
            _cap[t.dir], _msg[:] = json.load(open(name))
            return _cap[t.dir]
        learn(t)
        p = Prog(t, U("{begin} {integer} N; N := read; {begin} {integer} {array} A[1:N]; A[N] := 3; print(A[N]) {end} {end}"))
        f = lambda n: clean(p.run(n))
        hi = 1000
        while hi < CAP and f(hi):
            hi *= 2
        _cap[t.dir] = largest(f, hi // 2, hi)
        p.close()
        with open(name + ".%d" % os.getpid(), "w") as g:
            json.dump([_cap[t.dir], _msg], g)
        os.rename(name + ".%d" % os.getpid(), name)
    return _cap[t.dir]


HOG = "{begin} {integer} ZN, ZK, ZR; {real} ZX; {boolean} ZB; ZN := read; ZK := read; ZR := 0;\n" \
      "{begin} {integer} {array} ZA[1:ZN]; %s ZA[1] := 7; ZA[ZN] := 9;\n%s\n; ZQ: {if} ZA[1] ≠ 7 ∨ ZA[ZN] ≠ 9 {then} PRINTTEXT(`array spoilt') {end} {end}"


def repeated(form, d, s):
    """Statement s with declarations d (texts) in one of the forms of repetition."""
    if form in (1, 2) and d:      # its labels can only be seen inside
        s, d = "{begin} %s %s {end}" % (d, s), ""
    k = ["ZL: %s; ZR := ZR + 1; {if} ZR < ZK {then} {goto} ZL", "{for} ZR := 1 {step} 1 {until} ZK {do} {begin} %s {end}",
         "{for} ZR := 1, ZR + 1 {while} ZR ≤ ZK {do} {begin} %s {end}", "ZL: %s; ZR := ZR + 1; {goto} {if} ZR < ZK {then} ZL {else} ZQ"][form]
    return HOG % (d, k % s)


# statements, with declarations: (declarations, statement). Each is repeated in the block where it stands.
def F(head, body):
    return "{integer} {procedure} %s; {begin} %s {end}" % (head, body)


CATALOG = [
    ("{integer} i, j; {real} x;", "i := j := 3; x := i × 2.5 - j / 4"),
    ("{integer} i;", "i := {if} ZR > 2 {then} 3 {else} {if} ZR > 1 {then} 5 {else} 6"),
    ("{boolean} a, b;", "a := ZR > 1; b := a ∧ ¬ a ∨ (a ⊃ b) ≡ {true}"),
    ("{real} x;", "x := sin(1) + cos(2) × exp(0.5) - ln(3) + sqrt(2) + arctan(1) + abs(-3) + sign(-2) + entier(2.7)"),
    ("{integer} i;", "i := 7 ÷ 2 + 2 ↑ 3; ZX := 2.0 ↑ 0.5 + 2 ↑ (-1)"),
    ("", "print(3); print(2.5, 4, 7)"),
    ("", "NLCR; TAB; SPACE(3)"),
    ("", "FIXT(3, 2, 2.5); ABSFIXT(3, 2, -2.5); FLOT(5, 2, 3.75); FIXT(1, 0, 1000)"),
    ("", "PRINTTEXT(`abc'); PRSYM(3)"),
    ("", "SETRANDOM(0.5); ZX := RANDOM"),
    ("{integer} i;", "i := EVEN(3) + EVEN(4)"),
    ("{integer} i, j;", "ZX := SUM(i, 1, 3, i × SUM(j, 1, i, j))"),
    ("{integer} i;", "{for} i := 1, 2, 3 {step} 1 {until} 5, i + 1 {while} i < 8 {do} ZX := i"),
    ("{integer} i;", "{for} i := 3 {step} -1 {until} 1 {do}; {for} i := 1 {step} 1 {until} 0 {do} ZX := 1"),
    ("{integer} i, j;", "{for} i := 1 {step} 1 {until} 3 {do} {for} j := i, 7 {do} {if} j = 7 {then} ZX := i"),
    ("{integer} i;", "{for} i := 1 {step} 1 {until} 5 {do} {begin} {if} i = 3 {then} {goto} out {end}; out:"),
    ("{integer} i, j;", "{for} i := 1 {step} 1 {until} 5 {do} {for} j := 1 {step} 1 {until} 5 {do} {if} i × j = 12 {then} {goto} out; out:"),
    ("{integer} i;", "{for} i := 1, 2, 3 {do} {begin} {integer} k; k := i; {if} k = 2 {then} {goto} out {end}; out:"),
    ("", "{begin} {integer} a; {real} b; {boolean} c; a := 3; b := 4; c := {true} {end}"),
    ("", "{begin} {integer} {array} A[1:5]; {real} {array} B, C[0:2, -1:3]; A[3] := 4; B[1, 2] := C[0, 0] := 5 {end}"),
    ("", "{begin} {integer} {array} A[1:ZR × 0 + 2]; {real} {array} B[0:2, -1:1]; A[1] := 4; B[1, 1] := 5 {end}"),
    ("", "{begin} {integer} {array} A[1:5]; A[3] := 4; {goto} out {end}; out:"),
    ("", "{begin} {integer} {array} A[1:3]; {begin} {real} {array} B[1:A[1] × 0 + 2]; B[2] := 1; {goto} out {end} {end}; out:"),
    ("{procedure} P; ZX := 1;", "P"),
    ("{procedure} P(a, b); {value} a, b; {integer} a; {real} b; ZX := a + b;", "P(3, 4.5); P(2.7, 3)"),
    ("{procedure} P(a, b); {integer} a; {real} b; a := b + 1;", "P(ZR, ZR - 1); ZR := ZR"),
    ("{procedure} P(a, b, c, d); {value} a; {integer} a, b, c, d;;", "P(1, 2, 3, 4)"),
    (F("f", "f := 3") + ";", "ZX := f + f × f"),
    (F("f", "f := 3") + ";", "f"),
    ("{real} {procedure} f(x); {value} x; {real} x; f := x + 1;", "f(2); ZX := f(f(2))"),
    ("{boolean} {procedure} f(x); {integer} x; f := x > 1;", "f(2); {if} f(ZR) {then} ZX := 1; ZB := f(1) ∧ f(2)"),
    ("{real} {procedure} f(x); {real} x; f := x + x;", "ZX := f(f(f(2)))"),
    (F("f(n); {value} n; {integer} n", "f := {if} n = 0 {then} 0 {else} n + f(n - 1)") + ";", "ZX := f(9)"),
    (F("f(n); {integer} n", "f := {if} n = 0 {then} 0 {else} n + f(n - 1)") + ";", "ZX := f(6)"),
    ("{procedure} P(n); {value} n; {integer} n; {begin} {if} n > 0 {then} P(n - 1) {end};", "P(7)"),
    ("{procedure} P(n); {value} n; {integer} n; {begin} {integer} {array} A[1:n]; A[n] := n; {if} n > 1 {then} P(n - 1) {end};", "P(5)"),
    ("{procedure} P; {begin} {goto} out {end};", "P; out:"),
    ("{procedure} P(n); {value} n; {integer} n; {if} n = 0 {then} {goto} out {else} P(n - 1);", "P(6); out:"),
    ("{procedure} P(n, L); {value} n; {integer} n; {label} L; {if} n = 0 {then} {goto} L {else} P(n - 1, L);", "P(6, out); out:"),
    ("{procedure} P(n, L); {value} n; {integer} n; {label} L; {begin} {real} {array} A[0:n]; M: {if} n = 0 {then} {goto} L {else} P(n - 1, {if} n = 3 {then} L {else} L) {end};", "P(6, out); out:"),
    (F("f(n); {value} n; {integer} n", "{if} n = 0 {then} {goto} out; f := n + f(n - 1)") + ";", "ZX := 3 × (1 + f(4) × 2); out:"),
    (F("f", "{goto} out") + ";", "ZX := 3 + f; out:"),
    (F("f", "{goto} out; f := 1") + ";", "print(1, f); out:"),
    (F("f", "{goto} out; f := 1") + ";", "{for} ZX := 1, f {do}; out:"),
    (F("f", "{goto} out; f := 1") + ";", "{for} ZX := 1 {step} f {until} 3 {do}; out:"),
    (F("f", "{goto} out; f := 1") + ";", "{for} ZX := 1 {step} 1 {until} f {do}; out:"),
    (F("f", "{goto} out; f := 1") + ";", "{for} ZX := 1 {while} f = 1 {do}; out:"),
    (F("f", "{goto} out; f := 1") + ";", "ZA[ZN ÷ 2] := 3 + ZA[f]; out:"),
    (F("f", "{goto} out; f := 1") + ";", "ZA[f] := 5; out:"),
    (F("f", "{goto} out; f := 1") + ";", "{begin} {integer} {array} A[1:f]; A[1] := 1 {end}; out:"),
    (F("f", "{goto} out; f := 1") + "; {procedure} P(x, y); {value} x; {integer} x, y; ZX := x + y;", "P(f, 1); out:"),
    (F("f", "{goto} out; f := 1") + "; {procedure} P(x, y); {value} x; {integer} x, y; {begin} {integer} {array} A[1:3]; A[1] := x + 2 × y {end};", "P(2, f + 1); out:"),
    (F("f", "{goto} out; f := 1") + ";", "ZX := SUM(ZR, ZR, ZR, f); out:"),
    (F("f", "{goto} out; f := 1") + ";", "FIXT(3, f, 2); out:"),
    (F("f", "{goto} out; f := 1") + ";", "{if} f = 1 {then} ZX := 1; out:"),
    ("{switch} S := a1, a2;", "{goto} S[2]; a1: ZX := 1; a2:"),
    ("{switch} S := a1, a2; "+F("f", "{goto} a2; f := 1") + ";", "{goto} S[f]; a1: ZX := 1; a2:"),
    ("{switch} S := a1, {if} ZR > 1 {then} a2 {else} a1, T[1]; {switch} T := a2;", "{goto} S[3]; a1: ZX := 1; a2:"),
    ("{switch} S := a1, a2; {procedure} P(L); {label} L; {goto} L;", "P(S[2]); a1: ZX := 1; a2:"),
    ("{switch} S := a1, a2; {procedure} P(T); {switch} T; {goto} T[1];", "P(S); a1: ZX := 1; a2:"),
    ("{procedure} P(Q); {procedure} Q; Q(1); {procedure} R(n); {value} n; {integer} n; {if} n < 5 {then} R(n + 1);", "P(R)"),
    ("{integer} {array} B[1:3]; {procedure} P(A); {integer} {array} A; A[2] := 3;", "P(B)"),
    ("{integer} {array} B[1:3]; {procedure} P(A); {value} A; {integer} {array} A; A[2] := 3;", "P(B)"),
    ("{real} {array} B[1:3, 1:2]; {procedure} P(A); {value} A; {real} {array} A; {goto} out;", "P(B); out:"),
    ("{procedure} P(x); {real} x; {for} x := 1, 2 {step} 1 {until} 4 {do} ZX := x;", "P(ZX)"),
    ("{integer} {array} B[1:3]; {procedure} P(x); {integer} x; x := x + 1;", "B[2] := 1; P(B[B[2]])"),
    ("{procedure} P(s); {string} s; PRINTTEXT(s);", "P(`ab')"),
    ("{procedure} P(f); {real} {procedure} f; ZX := f(2);", "P(sin); P(entier)"),
    ("{procedure} P; {begin} {integer} k; {procedure} Q; {begin} k := 2; {goto} out {end}; k := 1; Q {end};", "P; out:"),
    ("{procedure} P; {begin} {integer} k; {procedure} Q; {begin} k := 2; {goto} in {end}; k := 1; Q; in: {end};", "P"),
    ("", "{if} ZR > 1 {then} {begin} {if} ZR > 2 {then} ZX := 1 {else} ZX := 2 {end} {else} ZX := 3"),
    ("", "ZX := 0; in: ZX := ZX + 1; {if} ZX < 4 {then} {goto} in"),
    ("{integer} i;", "{for} i := 1 {step} 1 {until} 3 {do} {begin} ZX := 0; in: ZX := ZX + 1; {if} ZX < 4 {then} {goto} in {end}"),
    ("{integer} i; {integer} {array} B[1:4];", "{for} B[2] := 1 {step} 1 {until} 3 {do} {for} i := B[2] {do} ZX := i"),
    ("{own} {integer} q;", "q := q + 1"),
    ("{integer} {array} B[1:4]; {real} {array} C[0:2, 1:3];", "B[1] := B[2] := 3; C[1, B[1]] := ZX := B[1 + 1] / 2; B[B[1]] := C[1, 3]"),
    ("{procedure} P(L); {label} L; {begin} {integer} i; {for} i := 1 {step} 1 {until} 3 {do} {if} i = 2 {then} {goto} L {end};", "P(out); out:"),
    ("{procedure} P(T, i); {value} i; {integer} i; {switch} T; {begin} {integer} {array} A[1:2]; {goto} T[i] {end}; {switch} S := a1, a2;", "P(S, 1); a1: P(S, 2); a2:"),
    ("{procedure} P(q); {procedure} q; {begin} {integer} k; k := 2; q(k); q(k + 1) {end}; {procedure} Q(n); {integer} n; ZX := n;", "P(Q)"),
    ("{procedure} P(f); {integer} {procedure} f; {begin} f(1); ZX := f(2) + f(3) {end}; " + F("g(n); {value} n; {integer} n", "g := n") + ";", "P(g)"),
    ("{procedure} P(f); {integer} {procedure} f; {begin} f; ZX := f + f {end}; " + F("g", "g := 4") + ";", "P(g)"),
    ("{procedure} P(x); {real} x; {begin} x; ZX := x {end}; " + F("g", "g := 4") + ";", "P(g)") if False else ("", "ZX := abs(-2.5) + entier(ZR / 2)"),
    ("{procedure} P(x, y); {real} x, y; {begin} {for} x := y, y {step} 1 {until} y + 2, x + 1 {while} x < 9 {do} ZX := y {end};", "P(ZX, ZR - ZR + 3)"),
    ("{integer} {array} B[1:4]; {procedure} P(x, i); {integer} x, i; {for} i := 1 {step} 1 {until} 4 {do} x := i;", "P(B[ZX], ZX)"),
    ("{procedure} P(b); {boolean} b; {if} b {then} ZX := 1 {else} {if} ¬ b {then} ZX := 2;", "P(ZR > 1); P({false}); P(ZX = 2 ∨ ZB)"),
    ("{procedure} P(b); {value} b; {boolean} b; ZB := b;", "P(ZR > 1); P({false})"),
    ("{procedure} P(n, x); {value} n; {integer} n; {real} x; {if} n > 0 {then} P(n - 1, x + n) {else} ZX := x;", "P(5, 0); P(7, ZR)"),
    ("{procedure} P(n, L); {value} n; {integer} n; {label} L; {begin} {if} n > 3 {then} {goto} L; P(n + 1, M); M: {end};", "P(0, out); out:"),
    ("{procedure} P; {begin} {procedure} Q; {begin} {procedure} R; {goto} in; R {end}; Q; in: {end};", "P"),
    ("{procedure} P(q); {procedure} q; q; {procedure} Q; {goto} out;", "P(Q); out:"),
    ("{procedure} P(q, n); {value} n; {integer} n; {procedure} q; {if} n > 0 {then} {begin} {procedure} R; {goto} in; P(q, n - 1); in: q {end}; {procedure} Q; ZX := 3;", "P(Q, 3)"),
    ("{switch} S := a1, T[2], a2; {switch} T := a1, {if} ZB {then} a1 {else} a2; {procedure} P(L); {label} L; {goto} L;", "ZX := 1; P({if} ZX > 2 {then} a1 {else} S[2]); a1: a2:"),
    ("", "{if} {if} ZR > 1 {then} ZB {else} {true} {then} ZX := {if} ZR > 1 {then} 1 {else} 2.5 {else} {goto} in; in:"),
    (F("f(n); {value} n; {integer} n", "{integer} q; q := f := n") + ";", "f(2); ZX := f(3); f(f(4))"),
    ("{real} {procedure} f(x); {real} x; f := ZX := x / 2;", "f(ZR); ZX := f(f(3)) + 1"),
    (F("f", "{integer} {array} A[1:2]; A[1] := f := A[2] := 4") + ";", "f; ZX := f"),
    ("{boolean} {procedure} f; ZB := f := ZR > 1;", "f; {if} f {then} f"),
    (F("f", "{procedure} P; {begin} {integer} k; k := f := 5 {end}; P; f := 3; P") + ";", "f; ZX := f + f"),
    (F("f", "{procedure} P; {begin} {integer} k; f := 5; k := f := 6; {goto} in {end}; P; in:") + ";", "f; ZX := f + f"),
    ("{procedure} P(f); {integer} {procedure} f; {begin} f(1); ZX := f(2) {end}; " + F("g(n); {value} n; {integer} n", "{integer} q; q := g := n") + ";", "P(g)"),
    ("", "SPACE(0); SPACE(-2); SPACE(ZR - ZR)"),
    ("{real} x, y; {integer} i;", "x := y := ZX := 2.5; i := x; i := 3.7; ZX := i := 4"),
    ("{integer} {array} B[1:3]; {procedure} P(A); {value} A; {real} {array} A; {begin} A[2] := 3.5; ZX := A[2] + A[1] {end};", "B[1] := B[2] := B[3] := 7; P(B)"),
    ("{real} {array} B[0:2, -1:1]; {procedure} P(A); {value} A; {integer} {array} A; {begin} A[0, 1] := 3; {if} ZR > 1 {then} {goto} out {end};", "{for} ZX := 0 {step} 1 {until} 2 {do} B[ZX, -1] := B[ZX, 0] := B[ZX, 1] := ZX; P(B); out:"),
    ("{procedure} P(x, y); {integer} x; {real} y; {begin} {integer} k; k := x := 3; y := ZX := 2 × y {end}; {integer} {array} B[1:2]; {real} {array} C[1:2];", "C[2] := 1; P(B[1], C[B[1] - B[1] + 2])"),
    ("{own} {integer} {array} B[1:3]; {integer} {array} C[1:3];", "B[1] := C[2] := 3; B[2] := C[2] + B[1]"),
    ("{integer} {array} B[0:1, 0:1, 0:1, 0:1, 0:1];", "B[1, 0, 1, 0, 1] := 3; ZX := B[1, 0, 1, 0, 1]"),
    ("{boolean} {array} B[1:2]; {procedure} P(b); {boolean} b; b := ¬ b;", "B[1] := {true}; B[2] := B[1]; P(B[2]); {if} B[1] ∧ ¬ B[2] {then} ZX := 2"),
    ("{real} {array} B[1:2]; {procedure} P(A, i); {real} {array} A; {integer} i; A[i] := A[3 - i] + SUM(i, 1, 2, A[i]);", "B[1] := B[2] := 0; ZX := 1; P(B, ZX)"),
]


def base_program(seed):
    """A generated block and the same output every time it runs."""
    r = random.Random(seed)
    cname = r.choice([c for c in diff.CFG if c not in ("exprdeep",)])
    cfg = dict(diff.CFG[cname], errors=0.0, own=0.0)
    cfg["size"] = min(cfg.get("size", 12), 14)
    x, why = gen.make(seed, **cfg)
    if x is None or not x[2] or not x[1]:
        return None
    return x[0], cname


def repeat_program(seed):
    """(source, name)"""
    r = random.Random(seed)
    if r.random() < .4:
        d, s = r.choice(CATALOG)
        k = r.randrange(3)
        if k == 0:
            d2, s2 = r.choice(CATALOG)
            if not (set(re.findall(r'\w+', d)) & set(re.findall(r'\b(?!real|integer|procedure|value|begin|end|array|switch|label|string|boolean|if|then|else|goto|own|for|do)[a-zA-Z]\w*', d2))
                    - {"ZX", "ZR", "n"}) and not ("out" in s and "out" in s2):
                d, s = d + d2, s + "; " + s2
        return repeated(r.randrange(4), d, s), "catalog"
    b = base_program(seed)
    if b is None:
        return None
    block, cname = b
    k = r.randrange(5)
    if k == 0:      # its statements repeated in its own block
        L = lang.D('label', "ZL")
        V = lang.D('var', "ZR", 'i')
        K = lang.D('var', "ZK", 'i')
        block.stmts = [('assign', [('var', V)], ('num', 0)), ('lbl', L, ('dummy',))] + block.stmts + \
            [('assign', [('var', V)], ('bin', '+', ('var', V), ('num', 1))), ('if', ('rel', '<', ('var', V), ('var', K)), ('goto', ('label', L)), None)]
        text = diff.render(block, seed)
        return HOG % ("", text), "own-block " + cname
    text = diff.render(block, seed)
    form = r.randrange(4)
    if k == 1:      # as a block
        return repeated(form, "", text), "block " + cname
    if k == 2:      # as a procedure
        return repeated(form, "{procedure} ZP; " + text + ";", "ZP"), "procedure " + cname
    if k == 3:      # left by a goto out of a procedure
        return repeated(form, "{procedure} ZP; {begin} " + text + "; {goto} ZO {end};", "ZP; ZO:"), "goto " + cname
    # in the middle of an expression, by name
    s = r.choice(["ZX := 1 + 2 × (ZF + 3)", "ZA[ZF] := ZA[1 + ZF]", "{for} ZX := 1, ZF {do}", "ZY(2, 3 + ZF)", "{begin} {real} {array} A[1:3, 0:ZF]; A[1, 1] := 2 {end}",
                  "{if} ZX < ZF {then} ZX := 2"])
    leave = "{goto} ZO;"
    if r.random() < .5:
        leave = ""
    return repeated(form, "{integer} {procedure} ZF; {begin} " + text + "; " + leave + " ZF := 1 {end};" +
                    "{procedure} ZY(a, b); {value} a; {real} a, b; {begin} {integer} {array} Q[1:3]; ZX := b + a {end};", s + "; ZO:"), "expression " + cname


def leak_case(item):
    seed, variant = item
    return leak(seed, variant, repeat_program(seed), seed % 4 == 0)


def leak(seed, variant, p, exact):
    t = harness.tool(variant)
    if p is None:
        return skip("no program")
    src, name = U(p[0]), p[1]
    r = random.Random(seed + 1)
    key = case_hash(src)
    cap = capacity(t)
    P = Prog(t, src)
    try:
        if not P.good:
            return skip("not compiled: " + name.split()[0])
        one, two, five = P.run(20, 1), P.run(20, 2), P.run(20, 5)
        if not clean(one) or not clean(two) or not clean(five):
            return skip("run-time error " + name)
        o1 = two.out[len(one.out):]
        if not two.out.startswith(one.out) or one.out + o1 * 4 != five.out:
            return skip("repetitions differ")
        if cap < 5000:
            return skip("small store")
        fs = {"p.a60": src}
        if not exact:
            # many repetitions in a moderate rest of storage
            many, rest = (6000, 2000) if len(o1) < 300 else (1500, 700)
            n = cap - rest
            two = P.run(n, 2)
            if not clean(two):
                if not overflowed(two):
                    return bad(key, "fails with N = %d, not with N = 20\n%s" % (n, two.brief()), dict(fs, input="%d 2" % n))
                return skip("needs much storage")
            try:
                x = P.run(n, many)
            except TimeoutError:
                many //= 20
                x = P.run(n, many)
            if not clean(x) or x.out != one.out + o1 * (many - 1):
                return bad(key, "repeating a statement needs more and more storage: with N = %d two repetitions run, %d do not\n%s" %
                           (n, many, x.brief()), dict(fs, input="%d %d" % (n, many)))
            return ok(key, {"repeat-probes": 1, "probe:" + name.split()[0]: 1, "repetitions": many}, sample={"kind": name, "source": src[:300]})
        many = 150
        want = one.out + o1 * (many - 1)
        def f(n):
            x = P.run(n, 2)
            if not clean(x) and not overflowed(x):
                raise ValueError(n, x)
            return x
        top = edge(lambda n: clean(f(n)), cap)
        if top is None:
            return skip("needs much storage")
        # just above: an error message, with the output so far
        over = f(top + 1)
        if over.crashed() or not overflowed(over) or not two.out.startswith(over.out.rstrip(b"\n")):
            return bad(key, "exhausted storage is not reported cleanly: with N = %d (%d works)\n%s" % (top + 1, top, over.brief()), dict(fs, input="%d 2" % (top + 1)))
        x = f(top)
        if not clean(x) or x.out != two.out:
            return bad(key, "the output changes with little free storage, N = %d\n%s\n----\n%s" % (top, x.brief(), two.brief()), dict(fs, input="%d 2" % top))
        x = P.run(top, many)
        if not clean(x) or x.out != want:
            free = largest(lambda n: clean(P.run(n, many)), 20, top) if overflowed(x) else 0
            return bad(key, "repeating a statement needs more and more storage: with N = %d two repetitions run, %d do not (they need %d cells more)\n%s" %
                       (top, many, top - free, x.brief()), dict(fs, input="%d %d" % (top, many)))
        return ok(key, {"edge-probes": 1, "probe:" + name.split()[0]: 1, "runs": P.runs, "cells-used": cap - top}, sample={"kind": name, "cells": cap - top, "source": src[:300]})
    except TimeoutError:
        return skip("runs long")
    except ValueError as e:
        return bad(key, "fails with N = %d, not with N = 20\n%s" % (e.args[0], e.args[1].brief()), dict(fs, input="%d 2" % e.args[0]))
    finally:
        P.close()


# --- recursion to the end of the storage

def recursion_program(seed):
    """(source, whether the depth costs quadratic time). Reads N, the cells occupied, and D, the depth; each level checks its data after the deeper calls."""
    r = random.Random(seed)
    pars, value, spec, acts, tests, decl, init = [], [], [], [], [], [], []
    thunk = r.random() < .2          # n by name: a chain of actual parameters
    pars.append("n")
    acts.append("n - 1")
    spec.append("{integer} n")
    if not thunk:
        value.append("n")
    first = ["ZD"]
    for j in range(r.choice([0, 0, 1, 1, 2, 3])):
        k = r.randrange(7)
        v = "x%d" % j
        if thunk and k in (1, 5):
            k = 0
        pars.append(v)
        if k == 0:
            value.append(v); spec.append("{real} " + v); acts.append("a - 0.75"); first.append("ZD + 0.25"); tests.append("%s = a + 0.25" % v)
        elif k == 1:        # by name, a variable of the caller
            spec.append("{integer} " + v); acts.append("a"); first.append("ZD + 1"); tests.append("%s = a + 1" % v)
        elif k == 2:
            value.append(v); spec.append("{boolean} " + v); acts.append("c"); first.append("{true}"); tests.append("(%s ∨ a < ZD)" % v)
        elif k == 3:
            spec.append("{integer} {array} " + v); acts.append(v); first.append("ZC"); tests.append("%s[2] = 5" % v)
        elif k == 4:
            value.append(v); spec.append("{integer} {array} " + v); acts.append(v); first.append("ZC"); tests.append("%s[2] + %s[1] = 8" % (v, v))
        elif k == 5:
            spec.append("{label} " + v); acts.append(v if r.random() < .5 else "M"); first.append("ZOUT")
        else:
            spec.append("{string} " + v); acts.append(v); first.append("`text'")
    rank = lambda x: [i for i, w in enumerate(["{integer} {array}", "{label}", ""]) if x.startswith(w)][0]
    spec.sort(key=lambda x: {0: 1, 1: 2, 2: 0}[rank(x)])
    if r.random() < .7:
        decl.append("{real} b"); init.append("b := a × 0.5"); tests.append("b = a / 2")
    if r.random() < .5:
        decl.append("{integer} d, e"); init.append("d := a + 7; e := -a"); tests.append("d + e = 7")
    if r.random() < .5:
        arr = r.choice(["{integer} {array} B[1:3]", "{real} {array} B[0:4], B2[1:2, 1:2]", "{integer} {array} B[0:a - a ÷ 4 × 4 + 1]", "{real} {array} B[-2:1]"])
        init2 = "B[1] := a + 1"
        tests.append("B[1] - 1 = a")
    else:
        arr = None
    form = r.choice(["f(%s)"] * 2 + ["t := t + 0 × f(%s)", "t := 1 + 2 × (3 + f(%s) × 2)", "ZC[2 + 0 × f(%s)] := 5", "{for} t := f(%s) {do}", "g(f(%s), 3)", "h(2, 3 + f(%s))",
                                     "{if} f(%s) < 0 {then} t := 2", "{begin} {integer} {array} E[1:1 + 0 × f(%s), 0:1]; E[1, 1] := a; {if} E[1, 1] ≠ a {then} t := 1⏨9 {end}", "q(f, %s)",
                                     "{for} t := 1 {step} 1 {until} 1 {do} f(%s)", "{begin} {integer} k; k := a + 3; f(%s); {if} k ≠ a + 3 {then} cnt := cnt - 10 {end}",
                                     "{begin} {procedure} w; f(%s); w {end}"])
    if form.startswith("q("):
        if len(pars) > 1 or thunk:
            form = "f(%s)"
        else:
            form = "q(f, a - 1)"
    call = form % ", ".join(acts) if "%s" in form else form
    leave = r.random() < .3
    bottom = "{goto} ZOUT" if leave else "t := 0"
    body = "{if} n > 0 {then} {begin} %s {end} {else} %s" % (call, bottom)
    ck = "{if} %s {then} cnt := cnt + 1" % " ∧ ".join(tests or ["a = a"])
    inner = "; ".join([x for x in ["a := n", "c := {true}"] + init + ([init2] if arr else [])] + [body, ck] + ["M: f := 3"])
    text = "{integer} a; {boolean} c; " + "".join(d + "; " for d in decl if d.startswith("{integer}")) + "".join(d + "; " for d in decl if d.startswith("{real}"))
    if arr:
        text += "a := n; {begin} %s; %s {end}; f := 3" % (arr, inner.replace("a := n; ", "", 1).replace("; M: f := 3", "; M:"))
    else:
        text += inner
    src = "{begin} {integer} ZN, ZD, cnt, rep; {real} t; {integer} {array} ZC[1:2]; ZN := read; ZD := read; cnt := 0; ZC[1] := 3; ZC[2] := 5; rep := 0;\n" \
          "{begin} {integer} {array} ZA[1:ZN];\n" \
          "{integer} {procedure} f(%s); %s%s;\n{begin} %s {end};\n" \
          "{procedure} g(x, y); {value} x, y; {integer} x, y; t := x + y;\n{procedure} h(x, y); {value} x; {integer} x, y; t := x + y;\n" \
          "{procedure} q(w, n); {value} n; {integer} n; {procedure} w; w(n);\n" \
          "ZA[1] := 7; ZA[ZN] := 9; ZL: f(%s); ZOUT: rep := rep + 1; {if} rep < 3 {then} {goto} ZL; print(cnt, rep, ZC[2]);\n" \
          "{if} ZA[1] ≠ 7 ∨ ZA[ZN] ≠ 9 {then} PRINTTEXT(`array spoilt') {end} {end}" % \
          (", ".join(pars), "{value} %s; " % ", ".join(value) if value else "", "; ".join(spec), text, ", ".join(first))
    return src, thunk, leave


def recursion_case(item):
    seed, variant = item
    t = harness.tool(variant)
    src, slow, leave = recursion_program(seed)
    src = U(src)
    r = random.Random(seed + 1)
    key = case_hash(src)
    cap = capacity(t)
    if cap < 5000:
        return skip("small store")
    rest = r.choice([300, 1000, 3000, 3000, 8000, 20000] if not slow else [200, 600, 1500])
    if variant != "plain":
        rest = min(rest, 1500)
    elif r.random() < .08 and not slow:
        rest = cap - 20
    N = cap - rest
    P = Prog(t, src)
    fs = {"p.a60": src}
    try:
        if not P.good:
            return skip("not compiled")

        def right(d):
            x = P.run(N, d)
            if overflowed(x):
                return False
            w = [0 if leave else 3 * (d + 1), 3, 5]
            if not clean(x) or x.text.split() != ["%d" % v for v in w]:
                raise ValueError("depth %d with N = %d: expected %s\n%s" % (d, N, w, x.brief()), d)
            return True
        try:
            if not right(0) and rest > 250:
                return bad(key, "recursion of depth 0 does not run with %d free cells" % rest, dict(fs, input="%d 0" % N))
            hi = 1
            while right(hi):
                hi *= 2
                if hi > 1 << 21:
                    return bad(key, "recursion of depth %d runs with %d free cells" % (hi, rest), dict(fs, input="%d %d" % (N, hi)))
            top = largest(right, hi // 2, hi)
            above = [top + 1, top + 2, top * 2 + 3, top * 10 + 50]
            for d in above:
                if right(d):
                    return bad(key, "recursion of depth %d overflows, %d does not" % (top + 1, d), dict(fs, input="%d %d" % (N, d)))
                x = P.run(N, d)
                if x.out.strip():
                    return bad(key, "output of a program whose storage is exhausted\n" + x.brief(), dict(fs, input="%d %d" % (N, d)))
        except ValueError as e:
            return bad(key, "recursion gives wrong results: " + e.args[0], dict(fs, input="%d %d" % (N, e.args[1])))
        except TimeoutError:
            return skip("runs long")
        return ok(key, {"recursions": 1, "levels": top, "by-name-chains" if slow else "by-value": 1, "left-by-goto": int(leave), "runs": P.runs},
                  sample={"depth": top, "free cells": rest, "source": src[:400]})
    finally:
        P.close()


def catalog_case(item):
    """Every statement of the catalog, in each form of repetition."""
    i, form, variant = item
    d, s = CATALOG[i]

    return leak(i, variant, (repeated(form, d, s), "catalog %d" % i), (i + form) % 6 == 0)


def rss_tool():
    """The helper that measures the memory of a program (x1v/rss.c), built where the programs are."""
    exe = os.environ["X1V_BASE"] + "/rss"
    if not os.path.exists(exe):
        tmp = exe + ".%d" % os.getpid()
        subprocess.run(["gcc", "-O1", "-o", tmp, os.path.join(os.path.dirname(os.path.abspath(__file__)), "rss.c")], check=True)
        os.rename(tmp, exe)
    return exe


def memory_case(item):
    """A statement repeated very often: the memory of the simulator itself does not grow."""
    i, form, ms = item
    d, s = CATALOG[i]
    src = U(repeated(form, d, s))
    t = harness.tool("plain")
    P = Prog(t, src)
    try:
        if not P.good:
            return skip("not compiled")
        exe = os.environ["X1V_BASE"] + "/rss"

        def go(k):
            x = harness.run1([exe, "rss.txt", t.sim, "q.x1"], P.d, b"20 %d\n" % k, t.env(), cpu=30, wall=120, keep=1 << 16)
            if x.timeout or x.hang:
                raise TimeoutError
            if not clean(x):
                return None
            return [int(v) for v in open(P.d + "/rss.txt").read().split()]

        k = 500
        a = go(k)
        if a is None:
            return skip("the statement cannot be repeated")
        per = max(a[1] - 2, 1) / k
        k2 = int(min(max(ms / per, 5000), 2000000))
        a, b = go(k2 // 10), go(k2)
        key = case_hash("memory", src)
        if a is None or b is None:
            return skip("the statement cannot be repeated that often")
        if b[0] - a[0] > 400:
            return bad(key, "the simulator takes %d kilobytes for %d repetitions and %d for %d: %s" % (a[0], k2 // 10, b[0], k2, s), {"p.a60": src})
        return ok(key, {"repetitions with memory watched": k2, "memory watched": 1}, sample={"statement": s, "kilobytes": [a[0], b[0]], "repetitions": [k2 // 10, k2]})
    except TimeoutError:
        return skip("too long")
    finally:
        P.close()
