"""P20: capacity. Programs that grow in one or several directions; what is accepted computes what was computed beforehand."""
import random
import re

from . import harness
from .core import bad, ok, skip, case_hash
from .libtest import U


def nm(p, i):
    """A name; different in the first nine characters."""
    return p + "".join("BCDGHJKMNQ"[int(c)] for c in str(i))


def seq(f, n, sep=""):
    return sep.join(f(i) for i in range(n))


class Part:
    """A part of a program: declarations of scalars, arrays, procedures and switches, statements, and the numbers or texts they print."""

    def __init__(self, s="", a="", p="", b="", want=()):
        self.s, self.a, self.p, self.b = s, a, p, b
        self.want = [str(w) for w in want]


TEMPLATES = {}


def T(lo, hi, **kw):
    def deco(f):
        TEMPLATES[f.__name__[2:]] = (f, lo, hi, kw)
        return f
    return deco


# v is the prefix of the part's names; vx is an integer, vy a real

def base(v):
    return "{integer} %sx, %si; {real} %sy; " % (v, v, v)


@T(1, 12000)
def t_consts(n, v, r):
    k = r.randrange(1000, 60000000)
    return Part(base(v), b="%sy := 0; %s print(%sy);" % (v, seq(lambda i: "%sy := %sy + %d; " % (v, v, k + i), n), v), want=[k * n + n * (n - 1) // 2])


@T(1, 3000)
def t_rconsts(n, v, r):
    k = r.randrange(10, 400)
    return Part(base(v), b="%sy := 0; %s print(entier(%sy × 2));" % (v, seq(lambda i: "%sy := %sy + %d.5; " % (v, v, k + i), n), v), want=[2 * k * n + n * n])


@T(1, 3000)
def t_mixed_constants(n, v, r):
    k = [r.choice([0, 0, 1, 1, 2]) for i in range(n)]
    b, ex, bi = [], 0, 0
    q = r.randrange(33000, 60000)
    for i, c in enumerate(k):
        if c == 0:
            b.append("%sy := %sy + %d.5; " % (v, v, i + 3))
            ex += 2 * i + 7
        elif c == 1:
            b.append("%sx := %sx - %d + %d; " % (v, v, q + i, 100000 + i))
            bi += 100000 - q
            if bi > 60000000:
                b.append("%sx := %sx - %d; " % (v, v, bi))
                bi = 0
        else:
            b.append("{if} %sy < %d.25 {then} %sx := -1; " % (v, -70000 - i, v))
    return Part(base(v), b="%sx := 0; %sy := 0; %s print(%sx, entier(%sy × 2));" % (v, v, "".join(b), v, v), want=[bi, ex])


@T(1, 4000)
def t_variables(n, v, r):
    k = r.randrange(1000)
    return Part("{integer} " + seq(lambda i: nm(v, i), n, ", ") + "; ", b="%s print(0 + %s);" %
                (seq(lambda i: "%s := %d; " % (nm(v, i), k + i), n), seq(lambda i: nm(v, i), min(n, 300), " + ")), want=[sum(k + i for i in range(min(n, 300)))])


@T(1, 2500)
def t_reals(n, v, r):
    ks = sorted({r.randrange(n) for j in range(5)} | {0, n - 1})
    return Part("{real} " + seq(lambda i: nm(v, i), n, ", ") + "; ", b="%s print(%s);" %
                ("".join("%s := %d; " % (nm(v, i), i + 5) for i in ks), ", ".join(nm(v, i) for i in ks)), want=[i + 5 for i in ks])


@T(1, 2500)
def t_own(n, v, r):
    ks = sorted({r.randrange(n) for j in range(5)} | {0, n - 1})
    return Part("{own} {integer} " + seq(lambda i: nm(v, i), n, ", ") + "; ", b="%s print(%s);" %
                ("".join("%s := %s + %d; " % (nm(v, i), nm(v, i), i + 5) for i in ks), ", ".join(nm(v, i) for i in ks)), want=[i + 5 for i in ks])


@T(1, 1300)
def t_formals(n, v, r):
    val = [i for i in range(n) if r.random() < .5]
    if r.random() < .3:
        val = []
    k = r.randrange(100)
    d = "{procedure} %sp(%s); %s{integer} %s; {begin} print(%s) {end}; " % (v, seq(lambda i: nm(v, i), n, ", "), "{value} " + ", ".join(nm(v, i) for i in val) + "; " if val else "",
                                                                     seq(lambda i: nm(v, i), n, ", "), seq(lambda i: nm(v, i), n, " + "))
    return Part(base(v), p=d, b="%sx := %d; %sp(%s);" % (v, k, v, seq(lambda i: "%d" % i if i % 3 else "%sx" % v, n, ", ")),
                want=[sum(i if i % 3 else k for i in range(n))])


@T(1, 3000)
def t_actual_expressions(n, v, r):
    d = "{procedure} %sp(%s); {integer} %s; {begin} print(%s) {end}; " % (v, seq(lambda i: nm(v, i), n, ", "), seq(lambda i: nm(v, i), n, ", "), seq(lambda i: nm(v, i), n, " + "))
    return Part(base(v), p=d, b="%sx := 4; %sp(%s);" % (v, v, seq(lambda i: "%sx + %d" % (v, i), n, ", ")), want=[4 * n + n * (n - 1) // 2])


@T(1, 900)
def t_procedures(n, v, r):
    return Part(base(v), p=seq(lambda i: "{procedure} %s; %sy := %sy + %d; " % (nm(v, i), v, v, i), n), b="%sy := 0; %s print(%sy);" % (v, seq(lambda i: nm(v, i) + "; ", n), v),
                want=[n * (n - 1) // 2])


@T(1, 1200)
def t_labels(n, v, r):
    return Part(base(v), b="%sy := 0; {goto} %s; %s %sfin: print(%sy);" %
                (v, nm(v, n - 1), seq(lambda i: "%s: %sy := %sy + %d; {goto} %s; " % (nm(v, i), v, v, i, nm(v, i - 1) if i else v + "fin"), n), v, v), want=[n * (n - 1) // 2])


@T(1, 3500)
def t_forward_gotos(n, v, r):
    return Part(base(v), b="%sx := 0; {goto} %s; %s %s: print(%sx);" % (v, nm(v, 1), seq(lambda i: "{if} %sx = %d {then} {goto} %s; " % (v, i + 1, nm(v, 1)), n), nm(v, 1), v), want=[0])


@T(1, 3500)
def t_switch(n, v, r):
    return Part(base(v), p="{switch} %ss := %s; " % (v, seq(lambda i: nm(v, i % 7), n, ", ")),
                b="%sx := %si := 0; %srep: %si := %si + 1; {if} %si ≤ %d {then} {goto} %ss[%si]; {goto} %sfin; %s %sfin: print(%sx);" %
                (v, v, v, v, v, v, n, v, v, v, seq(lambda i: "%s: %sx := %sx + %d; {goto} %srep; " % (nm(v, i), v, v, i, v), min(7, n)), v, v), want=[sum(i % 7 for i in range(n))])


@T(1, 1500)
def t_switches(n, v, r):
    return Part(base(v), p=seq(lambda i: "{switch} %s := %sl, %sm; " % (nm(v, i), v, v), n),
                b="%sx := 0; {goto} %s[1]; %sm: %sx := %sx + 5; %sl: %sx := %sx + 1; {if} %sx = 1 {then} {goto} %s[2]; print(%sx);" % (v, nm(v, n - 1), v, v, v, v, v, v, v, nm(v, n // 2), v), want=[7])


@T(1, 700)
def t_arrays(n, v, r):
    ks = sorted({r.randrange(n) for j in range(9)} | {0, n - 1})
    return Part(base(v), "{integer} {array} " + seq(lambda i: "%s[%d:%d]" % (nm(v, i), -(i % 3), i % 4), n, ", ") + "; ",
                b="".join("%s[%d] := %d; " % (nm(v, i), i % 4, i + 8) for i in ks) + "".join("print(%s[%d]); " % (nm(v, i), i % 4) for i in ks), want=[i + 8 for i in ks])


@T(1, 700)
def t_array_segment(n, v, r):
    ks = sorted({r.randrange(n) for j in range(9)} | {0, n - 1})
    return Part(base(v), "{real} {array} " + seq(lambda i: nm(v, i), n, ", ") + "[0:1, 2:3]; ",
                b="".join("%s[%d, 3] := %d; " % (nm(v, i), i % 2, i + 8) for i in ks) + "".join("print(%s[%d, 3]); " % (nm(v, i), i % 2) for i in ks), want=[i + 8 for i in ks])


@T(1, 60000)
def t_array_size(n, v, r):
    return Part(base(v), "{integer} {array} %sa[0:%d], %sb[0:3]; " % (v, n, v),
                b="{for} %si := 0 {step} 1 {until} 3 {do} %sb[%si] := %si + 5; %sa[%d] := 7; %sa[0] := 4; {for} %si := 0, %d {do} print(%sa[%si]); print(%sb[0], %sb[3]);" %
                (v, v, v, v, v, n, v, v, n, v, v, v, v), want=[4, 7, 5, 8])


@T(1, 300)
def t_dimensions(n, v, r):
    lo = [r.randrange(-2, 3) for j in range(n)]
    sz = [1 if j > 8 else r.randrange(1, 3) for j in range(n)]
    r.shuffle(sz)
    at = [a + s - 1 for a, s in zip(lo, sz)]
    return Part(base(v), "{integer} {array} %sa[%s]; " % (v, ", ".join("%d:%d" % x for x in zip(lo, at))),
                b="%sa[%s] := 6; print(%sa[%s]); %sa[%s] := 5; print(%sa[%s], %sa[%s]);" % ((v, ", ".join("%d" % x for x in lo)) * 2 + (v, ", ".join("%d" % x for x in at), v, ", ".join("%d" % x for x in lo),
                                                                                           v, ", ".join("%d" % x for x in at))), want=[6, 5 if lo == at else 6, 5])


@T(1, 4000)
def t_for_list(n, v, r):
    return Part(base(v), b="%sx := 0; {for} %si := %s {do} %sx := %sx + %si; print(%sx);" %
                (v, v, seq(lambda i: "%d" % i if i % 3 else "%d {step} 2 {until} %d" % (i, i), n, ", "), v, v, v, v), want=[n * (n - 1) // 2])


@T(1, 1500)
def t_for_statements(n, v, r):
    return Part(base(v), b="%sx := 0; %s print(%sx);" % (v, ("{for} %si := 1 {step} 1 {until} 2 {do} %sx := %sx + 1; " % (v, v, v)) * n, v), want=[2 * n])


@T(1, 60)
def t_for_nesting(n, v, r):
    return Part("{integer} %sx; " % v + "{integer} %s; " % seq(lambda i: nm(v, i), n, ", "), b="%sx := 0; %s %sx := %sx + 1; print(%sx);" %
                (v, seq(lambda i: "{for} %s := 1 {step} 1 {until} %d {do} " % (nm(v, i), 2 if i in (0, n // 2, n - 1) else 1), n), v, v, v), want=[2 ** len({0, n // 2, n - 1})])


@T(1, 1000)
def t_strings(n, v, r):
    return Part(b=seq(lambda i: "PRINTTEXT(`%s%d%s'); " % (v, i, v), n), want=["".join("%s%d%s" % (v, i, v) for i in range(n))])


@T(1, 3000)
def t_long_string(n, v, r):
    w = "".join(r.choice("abcdefghijklmnopqrstuvwxyz0123456789") for j in range(7))
    return Part(b="PRINTTEXT(`%s');" % (w * n), want=[w * n])


@T(1, 6000)
def t_assignments(n, v, r):
    return Part(base(v), b="%s 5; print(%sx + %si);" % (seq(lambda i: v + "xi"[i % 2] + " := ", n), v, v) if n > 1 else "%sx := %si := 5; print(%sx + %si);" % (v, v, v, v), want=[10])


@T(1, 30000)
def t_identifier_length(n, v, r):
    w = v + "x" * n
    return Part("{integer} %s, %sw; " % (w, v), b="%s := 5; %sw := 3; print(%s + %sw);" % (w, v, w, v), want=[8])


@T(1, 4000)
def t_print_arguments(n, v, r):
    return Part(b="print(%s);" % seq(lambda i: "%d" % i, n, ", "), want=range(n))


@T(1, 4000)
def t_statements(n, v, r):
    return Part(base(v), b="%sx := 0; %s print(%sx);" % (v, ("%sx := %sx + 1; " % (v, v)) * n, v), want=[n])


@T(1, 4000)
def t_conditionals(n, v, r):
    return Part(base(v), b="%sx := 0; %s print(%sx);" % (v, ("{if} %sx ≥ 0 {then} %sx := %sx + 1 {else} %sx := -9; " % (v, v, v, v)) * n, v), want=[n])


@T(1, 4000)
def t_calls(n, v, r):
    return Part(base(v), p="{procedure} %sp(k, l); {value} k; {integer} k, l; %sx := %sx + k + l; " % (v, v, v), b="%sx := 0; %s print(%sx);" % (v, ("%sp(1, 2); " % v) * n, v), want=[3 * n])


@T(1, 5000)
def t_compounds(n, v, r):
    return Part(base(v), b="%sx := 1; %s %sx := 2 %s; print(%sx);" % (v, "{begin} " * n, v, "{end} " * n, v), want=[2])


@T(1, 5000)
def t_open_compounds(n, v, r):
    return Part(base(v), b="%sx := 1; %s %sx := 2; PRINTTEXT(`q'); SPACE(2); %s; print(%sx);" % (v, "{begin} " * n, v, "{end} " * n, v), want=["q", 2])


@T(1, 60)
def t_blocks(n, v, r):
    return Part(base(v), b="%sx := 1; %s %sx := 2 %s; print(%sx);" %
                (v, seq(lambda i: "{begin} {integer} %s; %s := %d; " % (nm(v, i), nm(v, i), i), n), v, seq(lambda i: "; {if} %s ≠ %d {then} %sx := -1 {end} " % (nm(v, n - 1 - i), n - 1 - i, v), n), v), want=[2])


@T(1, 60)
def t_procedure_nesting(n, v, r):
    return Part(base(v), p="%s %sx := 7; %s; " % (seq(lambda i: "{procedure} %s; {begin} " % nm(v, i), n), v, seq(lambda i: "{end}; %s " % nm(v, n - 1 - i), n)[:-len(nm(v, 0)) - 3] if n else ""),
                b="%sx := 1; %s; print(%sx);" % (v, nm(v, 0), v), want=[7])


@T(1, 5000)
def t_parentheses(n, v, r):
    return Part(base(v), b="%sx := %s1%s; print(%sx);" % (v, "(1 + " * n, ")" * n, v), want=[n + 1])


@T(1, 5000)
def t_else_chain(n, v, r):
    return Part(base(v), b="%sx := 3; %sx := %s 1; print(%sx);" % (v, v, ("{if} %sx > 100 {then} 2 {else} " % v) * n, v), want=[1])


@T(1, 2000)
def t_statement_else_chain(n, v, r):
    return Part(base(v), b="%sx := %d; %s %sx := -5; print(%sx);" % (v, n, seq(lambda i: "{if} %sx = %d {then} %sx := %d {else} " % (v, i + 1, v, 1000 + i), n), v, v), want=[1000 + n - 1])


@T(1, 2500)
def t_if_nesting(n, v, r):
    return Part(base(v), b="%sx := 1; %s %sx := %sx + 2 %s; print(%sx);" % (v, ("{if} %sx > 0 {then} {begin} " % v) * n, v, v, ("{end} {else} %sx := 0 " % v) * n, v), want=[3])


@T(1, 2500)
def t_if_in_parentheses(n, v, r):
    return Part(base(v), b="%sx := 3; %sx := %s 1 %s; print(%sx);" % (v, v, ("({if} %sx > 0 {then} 1 + " % v) * n, " {else} 1)" * n, v), want=[n + 1])


@T(1, 3000)
def t_subscript_nesting(n, v, r):
    return Part(base(v), "{integer} {array} %sa[0:1]; " % v, b="%sa[0] := 0; %sa[1] := 1; %sx := 3; %sx := %s 1 %s; print(%sx);" % (v, v, v, v, ("%sa[" % v) * n, "]" * n, v), want=[1])


@T(1, 3000)
def t_standard_function_nesting(n, v, r):
    return Part(base(v), b="%sx := %s 1 %s; print(%sx);" % (v, "abs(" * n, ")" * n, v), want=[1])


@T(1, 1500)
def t_call_nesting(n, v, r):
    val = r.random() < .5
    return Part(base(v), p="{integer} {procedure} %sf(k); %s{integer} k; %sf := k + 1; " % (v, "{value} k; " if val else "", v), b="%sx := %s 1 %s; print(%sx);" % (v, ("%sf(" % v) * n, ")" * n, v), want=[n + 1])


@T(1, 4000)
def t_sum(n, v, r):
    k = [r.randrange(1, 900) for i in range(n)]
    return Part(base(v), b="%sy := %s; print(%sy);" % (v, " + ".join(map(str, k)), v), want=[sum(k)])


@T(1, 4000)
def t_disjunction(n, v, r):
    return Part(base(v), b="%sx := %d; {if} %s {then} print(1) {else} print(2);" % (v, n - 1, seq(lambda i: "%sx = %d" % (v, i), n, " ∨ ")), want=[1])


@T(1, 5000)
def t_right_operands(n, v, r):
    return Part(base(v), b="%sx := 2; %sx := %s; print(%sx);" % (v, v, "1 - (2 + " * n + "%sx × 1" % v + ")" * n, v), want=[(-1) ** n * 2 - (n % 2)])


@T(1, 400)
def t_number_length(n, v, r):
    k = [r.randrange(10) for j in range(n)]
    k[0] = r.randrange(1, 10)
    s = "".join(map(str, k))
    if n > 7:
        z = r.randrange(n)
        return Part(base(v), b="%sy := %s; {if} abs(%sy / %s.%s⏨%d - 1) < ⏨-10 {then} print(1) {else} print(2);" % (v, s, v, s[:1], s[1:] or "0", n - 1), want=[1])
    return Part(base(v), b="%sx := %s; print(%sx);" % (v, s, v), want=[s])


@T(1, 20000)
def t_comments(n, v, r):
    return Part(base(v), b="%sx := 1; {comment} %s; %sx := %sx + 1; {begin} {end} %s; print(%sx);" % (v, "words and 123 " * n, v, v, "many words " * n, v), want=[2])


@T(1, 1300)
def t_local_scalars_in_procedure(n, v, r):
    return Part(base(v), p="{procedure} %sp; {begin} {integer} %s; %s print(%s) {end}; " % (v, seq(lambda i: nm(v, i), n, ", "), seq(lambda i: "%s := %d; " % (nm(v, i), i), n), seq(lambda i: nm(v, i), n, " + ")),
                b="%sp;" % v, want=[n * (n - 1) // 2])


@T(1, 600)
def t_local_arrays_in_procedure(n, v, r):
    return Part(base(v), p="{procedure} %sp(k); {value} k; {integer} k; {begin} {integer} {array} %s; %s k := 0; %s print(k) {end}; " %
                (v, seq(lambda i: "%s[0:k]" % nm(v, i), n, ", "), seq(lambda i: "%s[k] := %d; " % (nm(v, i), i), n), seq(lambda i: "k := k + %s[2]; " % nm(v, i), n)),
                b="%sp(2);" % v, want=[n * (n - 1) // 2])


@T(1, 800)
def t_long_names(n, v, r):
    g = lambda i: v + "".join("BCDGHJKMNQ"[int(c)] for c in "%05d" % i) + "abc" + "x" * (i % 5)
    return Part("{integer} " + seq(g, n, ", ") + "; ", b="%s print(0 + %s);" % (seq(lambda i: "%s := %d; " % (g(i), i), n), seq(g, min(n, 200), " + ")), want=[sum(range(min(n, 200)))])


@T(1, 900)
def t_sequential_blocks(n, v, r):
    return Part(base(v), b="%sx := 0; %s print(%sx);" % (v, seq(lambda i: "{begin} {integer} %sk; %sk := %d; %sx := %sx + %sk {end}; " % (v, v, i, v, v, v), n), v), want=[n * (n - 1) // 2])


@T(1, 600)
def t_labels_in_blocks(n, v, r):
    return Part(base(v), b="%sx := 0; %s print(%sx);" % (v, seq(lambda i: "{begin} {integer} %sk; {goto} %sl; %sx := -9; %sl: %sx := %sx + 1 {end}; " % (v, v, v, v, v, v), n), v), want=[n])


@T(1, 3000)
def t_designational_nesting(n, v, r):
    return Part(base(v), b="%sx := 0; {goto} %s %sl; %sx := -5; %sl: %sx := %sx + 1; %sm: print(%sx);" % (v, ("{if} %sx > 3 {then} %sm {else} " % (v, v)) * n, v, v, v, v, v, v, v), want=[1])


@T(1, 40)
def t_value_array_dimensions(n, v, r):
    z = ", ".join(["0"] * n)
    return Part(base(v), "{integer} {array} %sa[%s]; " % (v, ", ".join(["0:0"] * n)), "{procedure} %sp(q); {value} q; {integer} {array} q; {begin} q[%s] := q[%s] + 1; print(q[%s]) {end}; " % (v, z, z, z),
                b="%sa[%s] := 7; %sp(%sa); print(%sa[%s]);" % (v, z, v, v, v, z), want=[8, 7])


@T(1, 300)
def t_formal_array_dimensions(n, v, r):
    z = ", ".join(["1"] * n)
    return Part(base(v), "{real} {array} %sa[%s]; " % (v, ", ".join(["1:1"] * n)), "{procedure} %sp(q); {real} {array} q; {begin} q[%s] := q[%s] + 1; print(q[%s]) {end}; " % (v, z, z, z),
                b="%sa[%s] := 7; %sp(%sa); print(%sa[%s]);" % (v, z, v, v, v, z), want=[8, 8])


@T(1, 3000)
def t_actual_nesting(n, v, r):
    return Part(base(v), p="{integer} {procedure} %sf(k); {integer} k; %sf := k + 1; " % (v, v), b="%sx := 5; %sy := %s %sx %s; print(%sy);" % (v, v, ("%sf(1 + " % v) * n, v, ")" * n, v), want=[5 + 2 * n])


@T(1, 1500)
def t_formal_procedure_arguments(n, v, r):
    ks = ["%d" % (i * 3) for i in range(n)]
    return Part(base(v), p="{procedure} %sp(q); {procedure} q; q(%s); {procedure} %sr(%s); {value} %s; {integer} %s; print(%s); " %
                (v, ", ".join(ks), v, seq(lambda i: nm(v, i), n, ", "), seq(lambda i: nm(v, i), n, ", "), seq(lambda i: nm(v, i), n, ", "), seq(lambda i: nm(v, i), n, " + ")),
                b="%sp(%sr);" % (v, v), want=[3 * n * (n - 1) // 2])


@T(1, 3000)
def t_library_calls(n, v, r):
    return Part(base(v), b="%sy := 0; %s print(%sy);" % (v, seq(lambda i: "%sy := %sy + SUM(%sx, 1, %d, %sx); " % (v, v, v, i % 4 + 1, v), n), v), want=[sum((i % 4 + 1) * (i % 4 + 2) // 2 for i in range(n))])


@T(1, 70000000)
def t_array_bounds(n, v, r):
    k = r.randrange(5)
    return Part(base(v), "{integer} {array} %sa[%d:%d], %sb[0:3]; " % (v, n - k, n, v), b="%sb[0] := %sb[3] := 3; %sa[%d] := 8; %sa[%d] := 7; print(%sa[%d], %sb[0], %sb[3]);" % (v, v, v, n - k, v, n, v, n - k, v, v),
                want=[8 if k else 7, 3, 3])


@T(1, 70000000)
def t_negative_array_bounds(n, v, r):
    k = r.randrange(5)
    return Part(base(v), "{real} {array} %sa[-%d:%d], %sb[0:3]; " % (v, n, k - n, v), b="%sb[0] := %sb[3] := 3; %sa[-%d] := 8; %sa[%d] := 7; print(%sa[-%d], %sb[0], %sb[3]);" % (v, v, v, n, v, k - n, v, n, v, v),
                want=[8 if k else 7, 3, 3])


@T(1, 70000000)
def t_array_product(n, v, r):
    m = r.choice([2, 3, 10, 1000, 8191])
    d = max(1, n // m)
    return Part(base(v), "{integer} {array} %sb[0:3], %sa[1:%d, 1:%d]; " % (v, v, d, m), b="%sb[0] := %sb[3] := 3; %sa[1, 1] := 8; %sa[%d, %d] := 7; print(%sa[1, 1], %sb[0], %sb[3]);" % (v, v, v, v, d, m, v, v, v),
                want=[8 if d * m > 1 else 7, 3, 3])


def part(name, n, v, r):
    return TEMPLATES[name][0](n, v, r)


GUARD = Part("{integer} gi; {real} gr; {boolean} gb; {own} {integer} go; ", "{integer} {array} ga[1:5]; ",
             "{integer} {procedure} gp(k); {integer} k; gp := k × 3 + ga[2]; {switch} gs := gl, gm; ",
             "gi := 12345; gr := 2.625; gb := {true}; go := go + 77; {for} gi := 1 {step} 1 {until} 5 {do} ga[gi] := gi × 11; gi := 12345; ",
             [])
CHECK = ("gm: print(read, abs(-3), sign(-2), sqrt(4), sin(0), cos(0), arctan(0), ln(1), exp(0), entier(2.5)); TAB; SPACE(1); FIXT(2, 0, 7); ABSFIXT(2, 0, 8); FLOT(2, 1, 5); "
         "print(XEEN(7), SUM(gi, 1, 4, gi)); gi := 12345; SETRANDOM(0.5); gr := RANDOM; gr := 2.625; PRSYM(11); {if} TIMEOFDAY < 0 {then} print(-1); print(gi, gr × 8, go, ga[1], ga[5], gp(5), EVEN(gi)); PRINTTEXT(`guard'); {if} gb {then} {begin} gb := {false}; {goto} gs[2] {end}; gl: ",
         ["4711", "3", "-1", "2", "0", "1", "0", "0", "1", "2", "+7", "8", "+.50⏨+1", "5", "10", "b", "12345", "21", "77", "11", "55", "37", "-1", "guard"] * 2)


def program(parts, local, r):
    """(source, expected words)"""
    if r.random() < .75:
        g, (cb, cw) = GUARD, CHECK
    else:
        g, (cb, cw) = Part(), ("", [])
    s = "".join(x.s for x in [g] + parts) if r.random() < .5 else "".join(x.s for x in parts + [g])
    a = "".join(x.a for x in [g] + parts) if r.random() < .5 else "".join(x.a for x in parts + [g])
    p = "".join(x.p for x in [g] + parts) if r.random() < .5 else "".join(x.p for x in parts + [g])
    b, w = g.b, []
    sep = "NLCR; "
    for x in parts:
        b += x.b.rstrip().rstrip(";") + "; " + sep
        w += x.want
    b += cb
    w += cw
    text = s + a + p + b
    if local == 0:
        return "{begin} " + text + " {end}", w
    if local == 1:
        return "{begin} {integer} zz; zz := 1; {begin} " + text + " {end}; print(zz) {end}", w + ["1"]
    return "{begin} {procedure} zz; {begin} " + text + " {end}; zz; print(9) {end}", w + ["9"]


# stops for faults in the source, none of which these programs have (README: the stops of the compiler)
WRONG = (7, 8, 10, 11, 12, 13, 14, 22, 23)


def words(text):
    return "".join(text.split())


def grow(name, n, local, seed):
    r = random.Random(seed)
    return program([part(name, n, "v", r)], local, r)


def judge(t, src, want):
    """('ok'|'rejected'|'bad'|'long', what)"""
    with harness.Scratch() as d:
        c = t.compile(d, src, cpu=20)
        if c.hang or c.timeout:
            return "long", "compiler"
        if c.crashed():
            return "bad", "the compiler crashes\n" + c.brief()
        if c.rc:
            if c.rc != 1 or not c.text.strip() or not ("***" in c.text or "read" in c.text or "input" in c.text):
                return "bad", "rejected without a message\n" + c.brief()
            m = re.search(r"stop +(\d+) *- *(\d+)", c.text)
            if m and int(m.group(2)) in WRONG:
                return "bad", "a correct program is rejected for a fault it does not have\n" + c.text[-300:]
            return "rejected", "compile" + (" %s" % m.group(2) if m else "")
        with open(d + "/q.x1", "wb") as f:
            f.write(c.out)
        x = t.sim_run(d, "q.x1", b"4711 101\n4711\n", cpu=20)
        if x.hang or x.timeout:
            return "bad", "the program does not end\n" + x.brief()
        if x.crashed():
            return "bad", "the simulator crashes\n" + x.brief()
        if x.rc:
            if x.rc != 1 or not x.etext.strip():
                return "bad", "rejected without a message\n" + x.brief()
            # it must be a message about storage, and nothing printed before it may be wrong
            if not words("".join(want)).startswith(words(x.text)):
                return "bad", "wrong output before the error message\nexpected %s\n%s" % (want[:20], x.brief())
            return "rejected", "run: " + x.etext.strip().split("\n")[0][:60]
        if words(x.text) != words("".join(want)):
            return "bad", "accepted, but the output is wrong\nexpected %s\n%s" % (" ".join(want)[:300], x.brief())
        return "ok", ""


def scan_case(item):
    """A template with growing size: the edges of what is accepted, and the sizes around them."""
    name, local, variant, seed = item
    t = harness.tool(variant)
    f, lo, hi, kw = TEMPLATES[name]
    ev = {"programs": 0, "accepted": 0, "rejected": 0}
    memo = {}
    r = random.Random(seed)

    class Wrong(Exception):
        pass

    def at(n):
        if n not in memo:
            src, want = grow(name, n, local, seed)
            src = U(src)
            k, what = judge(t, src, want)
            ev["programs"] += 1
            if k == "bad":
                raise Wrong(n, what, src)
            memo[n] = k
            if k == "ok":
                ev["accepted"] += 1
            elif k == "rejected":
                ev["rejected"] += 1
                ev["how:" + what.replace(" ", "-")] = ev.get("how:" + what.replace(" ", "-"), 0) + 1
        return memo[n]
    key = "%s-%d-%d" % (name, local, seed)
    try:
        sizes = sorted({lo, lo + 1, lo + 2, hi} | {r.randrange(lo, hi + 1) for j in range(2)} | {int(lo + (hi - lo) * r.random() ** 3) for j in range(3)})
        for n in sizes:
            at(n)
        # every change between accepted and not
        edges = [(a, b) for a, b in zip(sizes, sizes[1:]) if at(a) != at(b)]
        for a, b in edges:
            ka = at(a)
            while b - a > 1:
                m = (a + b) // 2
                if at(m) == ka:
                    a = m
                else:
                    b = m
            for n in range(max(lo, a - 5), min(hi, b + 5) + 1):
                at(n)
            ev["edges"] = ev.get("edges", 0) + 1
            ev["edge:" + name] = ev.get("edge:" + name, 0) + 1
    except Wrong as e:
        n, what, src = e.args
        return bad(key, "%s, size %d (local %d): %s" % (name, n, local, what), {"p.a60": src})
    return ok(key, ev, sample={"template": name, "local": local, "accepted": max([n for n in memo if memo[n] == "ok"] or [0]), "rejected from": min([n for n in memo if memo[n] == "rejected"] or [0])})


def mix_case(item):
    """Several templates in one program, all large."""
    seed, variant = item
    t = harness.tool(variant)
    r = random.Random(seed)
    names = [r.choice(sorted(TEMPLATES)) for j in range(r.choice([2, 2, 3, 4, 6]))]
    local = r.choice([0, 0, 1, 2])
    key = "mix-%d" % seed
    ev = {"programs": 0, "accepted": 0, "rejected": 0, "mixed": 1}

    def build(scale):
        q = random.Random(seed + 1)
        ps = []
        for j, name in enumerate(names):
            f, lo, hi, kw = TEMPLATES[name]
            ps.append(part(name, max(lo, int((hi - lo) * scale * q.random())), "uvwpqr"[j], q))
        return program(ps, local, q)
    scale, last = 1.0, None
    got = 0
    lo, hi = 0.0, 1.0
    for step in range(9):
        src, want = build(scale)
        src = U(src)
        k, what = judge(t, src, want)
        ev["programs"] += 1
        if k == "bad":
            return bad(key, "%s (local %d): %s" % (names, local, what), {"p.a60": src})
        if k == "ok":
            ev["accepted"] += 1
            lo = scale
            got = 1
        else:
            ev["rejected"] += 1
            hi = scale
        if scale == 1.0 and k == "ok":
            break
        scale = (lo + hi) / 2
    if not got:
        return skip("nothing accepted")
    return ok(key, ev, sample={"templates": names, "local": local})
