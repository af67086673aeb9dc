"""P23: the Pascal version of the compiler against the C version: for every program the same object program.

The object programs both write are recorded and compared line by line.  Left out are the differences documented in the README
(a formal parameter passed on directly as an actual one; a standard function passed as a parameter; a constant as a parameter
after a standard function) and programs that need procedures from a library tape."""
import os
import random
import re

from . import arrgen, build, calltest, exprtest, fortest, gen, lang, notetest, numtest
from .core import ok, bad, skip, unsure
from .harness import Scratch, tool, run

LIB = build.REPO + "/library/x1algol.lib"
OBJ = re.compile(r"(?m)^ *\d+ +\d+$")
STOP = re.compile(r"\*\*\* stop ([0-9 ]+-[0-9 ]+)")
CFG = [{}, {"procparams": 0}]


def walk(x, f, seen):
    if isinstance(x, (tuple, list)):
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            f(x)
        for y in x:
            walk(y, f, seen)
    elif isinstance(x, lang.Block):
        walk(x.decls, f, seen)
        walk(x.stmts, f, seen)
    elif isinstance(x, lang.D) and id(x) not in seen:
        seen.add(id(x))
        walk(x.body, f, seen)
        walk(x.elems, f, seen)
        walk(x.bounds, f, seen)


def names(x):
    return isinstance(x, lang.D) or isinstance(x, (tuple, list)) and any(names(y) for y in x)


def wrap(block):
    """f(x) with a formal x becomes f((x)): the same for both versions.  (The program is compiled only, not run.)"""
    def f(x):
        if x[0] in ("call", "pcall") and len(x) > 2 and isinstance(x[2], list):
            for i, a in enumerate(x[2]):
                while isinstance(a, tuple) and a[0] == "pos":       # +x is x
                    a = a[1]
                if isinstance(a, tuple) and len(a) > 1 and isinstance(a[1], lang.D) and a[1].mode and (a[0] == "var" or a[0] == "call" and not a[2]):
                    x[2][i] = ("par", a)
    walk(block, f, set())


def documented(block):
    """Does the program contain something for which the README documents a difference, or need a library?"""
    found = set()
    inner = []

    def f(x):
        if x[0] in ("call", "pcall") and len(x) > 2:
            for a in x[2]:
                if isinstance(a, tuple) and len(a) > 1 and isinstance(a[1], lang.D) and a[1].mode and a[0] in ("var", "proc", "strf", "arrp", "switch", "label"):
                    found.add("formal")
                if a[0] == "stdf":
                    found.add("standard")
            std = False             # a constant as a parameter after a standard function in an earlier one
            for a in x[2]:
                if std and isinstance(a, tuple) and not names(a):
                    found.add("constant")
                walk(a, lambda y: inner.append(y[0]), set())
                if any(y in ("std", "read", "stdf") for y in inner):
                    std = True
                del inner[:]
        if x[0] in ("even", "sum", "text", "xeen"):
            found.add(x[0])
    walk(block, f, set())
    return found


def both(src, variant):
    """(what the C version wrote, what the Pascal version wrote): text, stop number or None, Res"""
    t = tool("plain")
    with Scratch() as d:
        a = t.compile(d, src, libs=(LIB,))
        p = run([os.path.join(os.path.dirname(t.dir), variant, "x1algol"), LIB], d, src.encode(), wall=60)
    res = []
    for x in (a, p):
        m = STOP.search(x.text)
        res.append((x.text.strip(), m and m.group(1).strip(), x))
    return res


def judge(src, variant, key, ev):
    """None when both write the same, "stop" when both reject it with the same number, or a violation"""
    (ct, cs, cr), (pt, ps, pr) = both(src, variant)
    files = {"source.a60": src, "c.txt": cr.text, "pascal.txt": pr.text + pr.etext}
    if cr.timeout or pr.timeout:
        return unsure("watchdog")
    if pr.rc != 0:
        return bad(key, "Pascal version ends with status %s: %s" % (pr.rc, (pr.etext + pr.text).strip()[-160:]), files)
    if cs or ps or cr.rc != 0:
        if cs == ps and cs:
            ev["both stop " + cs] = ev.get("both stop " + cs, 0) + 1
            return "stop"
        return bad(key, "C version %s; Pascal version %s" % ("stops " + cs if cs else "accepts" if cr.rc == 0 else cr.text.strip()[:80],
                                                             "stops " + ps if ps else "accepts"), files)
    if ct != pt:
        a, b = ct.split("\n"), pt.split("\n")
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                break
        else:
            i, x, y = min(len(a), len(b)), "(%d lines)" % len(a), "(%d lines)" % len(b)
        return bad(key, "object programs differ in line %d: C %r, Pascal %r" % (i + 1, x, y), files)
    if not OBJ.search(pt):
        return bad(key, "no object program: %r" % pt[:80], files)
    ev["same object programs"] = ev.get("same object programs", 0) + 1
    ev["lines compared"] = ev.get("lines compared", 0) + ct.count("\n") + 1
    if any(len(x.encode()) > 255 for x in src.split("\n")):
        ev["lines over 255 bytes"] = ev.get("lines over 255 bytes", 0) + 1
    return None


def layout(toks, r):
    o = notetest.options(r)
    o["style"] = "ascii"        # the Pascal version reads _b_e_g_i_n and the symbols themselves
    o["ops"] = "uni"
    return re.sub("[^\\x00-\\x7f¬×÷↑∧∨≠≡≤≥⊃⏨]", "", notetest.write(toks, r, o).replace("@", "⏨"))


def block_of(kind, seed):
    if kind == "programs":
        g, why = gen.make(seed, **dict({"even": 0, "text": 0, "sumexpr": 0}, **CFG[seed % len(CFG)]))
        return g and g[0]
    if kind == "expressions":
        return exprtest.G(seed).build()
    if kind == "calls":
        return calltest.G(seed).program()
    if kind == "loops":
        return fortest.build(seed)[0]
    return arrgen.G(seed).program()


def case(item):
    kind, seed, variant = item
    r = random.Random(seed)
    ev = {}
    key = "%s-%d" % (kind, seed)
    try:
        b = block_of(kind, seed)
    except lang.Discard as x:
        return skip(str(x))
    if b is None:
        return skip("no program")
    wrap(b)
    d = documented(b)
    if d:
        return skip(sorted(d)[0])
    toks = lang.tokens(b)
    if len(toks) > 6000:
        return skip("large program")
    src = lang.render(toks)
    for k in range(2 if len(toks) > 1500 else 3):
        if k:
            src = layout(toks, r)
        x = judge(src, variant, key, ev)
        if x == "stop":
            return bad(key, "both versions reject a correct program", {"source.a60": src})
        if x:
            return x
    # one use of a name replaced by a name that is not declared
    ids = [i for i, t in enumerate(toks) if t[0] == "id"]
    if ids:
        i = r.choice(ids[len(ids) // 2:])
        t2 = list(toks)
        t2[i] = ("id", "undeclared")
        src = lang.render(t2)
        (ct, cs, cr), (pt, ps, pr) = both(src, variant)
        if cs == "0- 7" or ps == "0- 7":
            if cs != ps:
                return bad(key, "name not declared: C version %s, Pascal version %s" % (cs or "accepts", ps or "accepts"),
                           {"source.a60": src, "c.txt": cr.text, "pascal.txt": pr.text})
            ev["name not declared"] = 1
    ev["kind:" + kind] = 1
    return ok(key, ev, sample={"seed": seed, "kind": kind, "object": ct[:200]})


def literals(item):
    seed, variant = item
    r = random.Random(seed)
    ev = {}
    key = "literals-%d" % seed
    lits = [numtest.rnd_literal(r) for _ in range(40)]
    src = numtest.U("{begin} {real} x; {integer} i;\n" + ";\n".join(r.choice(["x:=%s", "x:=x+%s", "i:=i-%s", "x:=-%s", "x:=%s/i", "print(%s)", "x:=sin(%s)"]) % l for l in lits) + " {end}")
    x = judge(src, variant, key, ev)
    if x == "stop":
        return bad(key, "both versions reject a correct program", {"source.a60": src})
    if x:
        return x
    ev["literals"] = 40
    big = r.choice(["%d⏨%d" % (r.randrange(1, 10 ** 6), r.randrange(560, 700)), "1⏨%d" % r.randrange(10 ** 7, 10 ** 9)])
    x = judge(numtest.U("{begin} {real} x; x:=%s {end}" % big), variant, key, ev)
    if x and x != "stop":
        return x
    return ok(key, ev, n=41)

