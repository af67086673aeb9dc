"""Hostile sources for the compiler, hostile object programs and inputs for the simulator; sanitizers and watchdogs decide."""
import glob
import os
import random
import re

from . import build, diff, gen, lang, mutate
from .core import ok, bad, skip, unsure, case_hash
from .harness import Scratch, tool
from .numtest import U

STOP = re.compile(rb"\*\*\* stop ([0-9]+)- ?([0-9]+) \*\*\*")


# ---------------------------------------------------------------- verdicts on one compilation
OBJLINE = re.compile(r"\s*[0-9]+\s+-?[0-9]+$")


def bad_object(text):
    """Is the printed object program well-formed? Returns a complaint or None."""
    n = 0
    seen = set()
    for l in text.split('\n'):
        if OBJLINE.match(l):
            a, w = l.split()
            a, w = int(a), int(w)
            if not 0 <= a < 32768:      # words: this compiler has no full syntax check and may assemble nonsense from nonsense
                return "line '%s' has an address out of range" % l
            if a in seen:
                return "address %d is given twice" % a
            seen.add(a)
            n += 1
    if n == 0:
        return "no words"
    return None


def judge(x, d, before, key, src, ev):
    """Verdict on a compilation: None if fine."""
    f = {"p.a60": src, "got.txt": x.brief()}
    if x.timeout:
        return unsure("watchdog")
    if x.hang:
        return bad(key, "the compiler does not end (processor time limit)", f, events=ev)
    if x.crashed():
        return bad(key, "the compiler crashed: " + (x.etext or x.text)[-1500:], f, events=ev)
    if x.rc not in (0, 1):
        return bad(key, "the compiler ended with status %d" % x.rc, f, events=ev)
    if sorted(os.listdir(d)) != before:
        return bad(key, "the compiler left files: %s" % os.listdir(d), f, events=ev)
    if x.rc == 1:
        m = STOP.search(x.out)
        if m:
            k = "stop %s" % m.group(2).decode()
        elif b"Bad input" in x.out:
            k = "bad input"
        elif x.out.strip() or x.err.strip():
            k = "other message"
        else:
            return bad(key, "the compiler rejects the text without a message", f, events=ev)
        ev[k] = ev.get(k, 0) + 1
        ev["rejected"] = ev.get("rejected", 0) + 1
    else:
        w = bad_object(x.text)
        if w:
            return bad(key, "status zero but no proper object program: " + w, f, events=ev)
        if STOP.search(x.out):
            return bad(key, "error message with status zero", f, events=ev)
        ev["compiled"] = ev.get("compiled", 0) + 1
    return None


_corpus = None


def corpus():
    global _corpus
    if _corpus is None:
        c = []
        for f in sorted(glob.glob(build.REPO + "/tests/*.cpp")):
            c += re.findall(r'R"\((.*?)\)"', open(f, encoding='utf-8').read(), re.S)
        c = [x for x in c if 'b\u0332e\u0332' in x or '_b_e' in x]
        for f in sorted(glob.glob(build.REPO + "/examples/*.a60") + glob.glob(build.REPO + "/tests/*.a60")):
            c.append(open(f, encoding='utf-8').read())
        _corpus = c
    return _corpus


def source(r):
    k = r.random()
    if k < 0.08:
        return mutate.random_tokens(r).encode()
    if k < 0.12:
        return bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 10, 100, 3000])))
    if k < 0.5 and corpus():
        b = r.choice(corpus())
    else:
        for _ in range(20):
            x, _ = gen.make(r.randrange(1 << 40), **diff.CFG[r.choice(sorted(diff.CFG))])
            if x:
                break
        else:
            return b""
        b = lang.render(lang.tokens(x[0]))
    if k < 0.85:
        return mutate.mutate_tokens(r, b, r.choice(corpus() or [b])).encode()
    return mutate.mutate_bytes(r, b.encode())


def source_case(item):
    """Mutated and random source texts."""
    seed, variant = item
    r = random.Random(seed)
    ev = {}
    n = 0
    for i in range(4):
        b = source(r)
        with Scratch() as d:
            x = tool(variant).compile(d, b, libs=r.choice([(build.REPO + "/library/x1algol.lib",)] * 5 + [()]),
                                      args=r.choice([[]] * 6 + [["-v"], ["-b"]]))
            v = judge(x, d, ["p.a60"], case_hash(seed, i), b, ev)
        if v:
            return v
        ev[variant] = ev.get(variant, 0) + 1
        n += 1
    return ok(case_hash(seed), ev, n=n, sample={"seed": seed, "last": b[:120].decode('utf-8', 'replace')})


# ---------------------------------------------------------------- size and nesting
def big(n, k, r):
    """A text of kind k that grows with n."""
    def seq(f, sep=";"):
        return sep.join(f(i) for i in range(n))
    B = "{begin} "
    E = " {end}"
    D = "{integer} a,b; {real} x; {boolean} q; {array} v[0:9]; "
    K = {
        "parens": lambda: B + D + "a:=" + "(" * n + "1" + ")" * n + E,
        "open parens": lambda: B + D + "a:=" + "(" * n,
        "blocks": lambda: "{begin} {integer} a; " * n + "a:=1" + "{end} " * n,
        "compounds": lambda: "{begin} " * n + "NLCR" + " {end}" * n,
        "begins": lambda: "{begin} " * n,
        "ends": lambda: B + "{end} " * n,
        "ifs": lambda: B + D + "{if} q {then} {begin} " * n + "a:=1" + "{end} " * n + E,
        "if expressions": lambda: B + D + "a:=" + "({if} q {then} 1 {else} " * n + "2" + ")" * n + E,
        "else ifs": lambda: B + D + "a:=" + "{if} q {then} 1 {else} " * n + "2" + E,
        "fors": lambda: B + D + "{for} a:=1 {step} 1 {until} 1 {do} " * n + "b:=1" + E,
        "for list": lambda: B + D + "{for} a:=" + seq(lambda i: "%d" % i, ",") + " {do} b:=a" + E,
        "subscripts": lambda: B + D + "x:=" + "v[" * n + "1" + "]" * n + E,
        "calls": lambda: B + D + "x:=" + "abs(" * n + "1" + ")" * n + E,
        "own calls": lambda: B + D + "{real} {procedure} f(y); f:=y; x:=" + "f(" * n + "1" + ")" * n + E,
        "procedures": lambda: B + D + seq(lambda i: "{procedure} p%d; a:=%d" % (i, i)) + E,
        "nested procedures": lambda: B + D + "{procedure} p; {begin} " * n + "a:=1" + " {end}" * n + E,
        "parameters": lambda: B + D + "{procedure} p(" + seq(lambda i: "y%d" % i, ",") + "); a:=1; p(" + seq(lambda i: "%d" % i, ",") + ")" + E,
        "value parameters": lambda: B + D + "{procedure} p(" + seq(lambda i: "y%d" % i, ",") + "); {value} " + seq(lambda i: "y%d" % i, ",") +
        "; {integer} " + seq(lambda i: "y%d" % i, ",") + "; a:=1; a:=2" + E,
        "value parts": lambda: B + D + "{procedure} p(y); " + "{value} y; " * n + "{integer} y; a:=y; p(1)" + E,
        "value names": lambda: B + D + "{procedure} p(y); {value} " + seq(lambda i: "y", ",") + "; {integer} y; a:=y; p(1)" + E,
        "value words": lambda: B + D + "{procedure} p(y); " + "{value} " * n + " y; {integer} y; a:=y; p(1)" + E,
        "specifications": lambda: B + D + "{procedure} p(y); " + "{integer} y; " * n + "a:=y; p(1)" + E,
        "mixed specifications": lambda: B + D + "{procedure} p(y); " + seq(lambda i: r.choice(["{integer}", "{value}", "{real}", "{label}", "{switch}", "{procedure}", "{array}", "{string}",
                                                                                              "{integer} {array}", "{real} {procedure}"]) + " y") + "; a:=y; p(1)" + E,
        "scalars": lambda: B + "{integer} " + seq(lambda i: "a%d" % i, ",") + "; a0:=1" + E,
        "long names": lambda: B + "{integer} " + seq(lambda i: "abcdefg%d" % i, ",") + "; abcdefg0:=1" + E,
        "local scalars": lambda: B + "{procedure} p; {begin} {integer} " + seq(lambda i: "a%d" % i, ",") + "; a0:=1 {end}; p" + E,
        "arrays": lambda: B + "{array} " + seq(lambda i: "a%d[0:%d]" % (i, i % 5), ",") + "; a0[0]:=1" + E,
        "own arrays": lambda: B + "{own} {real} {array} " + seq(lambda i: "a%d[0:%d]" % (i, i % 5), ",") + "; a0[0]:=1" + E,
        "dimensions": lambda: B + "{array} a[" + seq(lambda i: "0:1", ",") + "]; a[" + seq(lambda i: "0", ",") + "]:=1" + E,
        "dynamic dimensions": lambda: B + "{integer} k; k:=1; {begin} {array} a[" + seq(lambda i: "0:k", ",") + "]; a[" + seq(lambda i: "0", ",") + "]:=1 {end}" + E,
        "array size": lambda: B + "{array} a[0:%d]; a[0]:=1" % (n * 37) + E,
        "array size 2": lambda: B + "{array} a[-%d:%d,%d:%d]; a[0,0]:=1" % (n * 3, n * 7, -n, n * 5) + E,
        "array power": lambda: B + "{array} a[0:%d]; a[0]:=1" % min(10 ** (n % 30), 10 ** 25) + E,
        "labels": lambda: B + D + seq(lambda i: "l%d: a:=1" % i) + E,
        "labels at one": lambda: B + D + "".join("l%d: " % i for i in range(n)) + "a:=1" + E,
        "gotos": lambda: B + D + "l: " + seq(lambda i: "{goto} l") + E,
        "undeclared": lambda: B + D + seq(lambda i: "u%d:=1" % i) + E,
        "constants": lambda: B + D + seq(lambda i: "x:=%d.5" % i) + E,
        "integers": lambda: B + D + seq(lambda i: "a:=%d" % (100 + i)) + E,
        "reals": lambda: B + D + seq(lambda i: "x:=%d⏨%d" % (i * 7 + 1, i % 600 - 300)) + E,
        "strings": lambda: B + seq(lambda i: "PRINTTEXT(`s%d')" % i) + E,
        "long string": lambda: B + "PRINTTEXT(`" + "abcdefgh" * n + "')" + E,
        "nested string": lambda: B + "PRINTTEXT(" + "`" * n + "x" + "'" * n + ")" + E,
        "open string": lambda: B + "PRINTTEXT(" + "`abc " * n,
        "comment": lambda: B + "{comment} " + "text " * n + "; NLCR" + E,
        "open comment": lambda: B + "{comment} " + "text " * n,
        "end text": lambda: B + "{begin} NLCR {end} " + "text " * n + E,
        "identifier": lambda: B + "{integer} " + "abc7" * n + "; " + "abc7" * n + ":=1" + E,
        "number": lambda: B + D + "x:=" + "9" * n + E,
        "number 0": lambda: B + D + "x:=" + "0" * n + "1" + E,
        "fraction": lambda: B + D + "x:=." + "37" * n + E,
        "zero fraction": lambda: B + D + "x:=." + "0" * n + "1" + E,
        "points": lambda: B + D + "x:=1" + "." * n + "1" + E,
        "exponent": lambda: B + D + "x:=1⏨" + "1" * n + E,
        "exponent 2": lambda: B + D + "x:=%d⏨%d" % (r.choice([0, 1, 7]), r.choice([1, -1]) * n * 1000) + E,
        "tens": lambda: B + D + "x:=" + "1⏨" * n + "1" + E,
        "terms": lambda: B + D + "a:=" + seq(lambda i: "b", "+") + E,
        "powers": lambda: B + D + "a:=" + seq(lambda i: "b", "↑") + E,
        "minus": lambda: B + D + "a:=" + "-" * n + "b" + E,
        "not": lambda: B + D + "q:=" + "¬" * n + "q" + E,
        "relations": lambda: B + D + "q:=" + seq(lambda i: "b", "<") + E,
        "left parts": lambda: B + D + "a:=b:=" * n + "1" + E,
        "statements": lambda: B + D + seq(lambda i: "a:=b") + E,
        "semicolons": lambda: B + D + ";" * n + E,
        "switch": lambda: B + D + "{switch} s:=" + seq(lambda i: "l", ",") + "; l: {goto} s[1]" + E,
        "switches": lambda: B + D + seq(lambda i: "{switch} s%d:=l" % i) + "; l: {goto} s0[1]" + E,
        "designational": lambda: B + D + "{goto} " + "{if} q {then} l {else} " * n + "l; l: a:=1" + E,
        "blanks": lambda: B + D + " " * n * 3 + "a:=1" + E,
        "lines": lambda: B + D + "\n" * n * 3 + "a:=1" + E,
        "underscores": lambda: B + D + "_" * n + "=1" + E,
        "bars": lambda: B + D + "q:=a" + "|" * n + "=1" + E,
        "marks": lambda: "b" + "\u0332" * n + "e\u0332g\u0332i\u0332n\u0332 NLCR" + E,
        "word": lambda: B + D + "_s_t_r" * n + E,
        "print arguments": lambda: B + D + "print(" + seq(lambda i: "a", ",") + ")" + E,
        "formal calls": lambda: B + D + "{procedure} p(f); {procedure} f; " + seq(lambda i: "f(%d)" % i) + "; a:=1" + E,
        "brackets": lambda: "".join(r.choice(["(", ")", "[", "]", "{begin} ", "{end} ", "`", "'"]) for i in range(n)),
        "mixed nest": lambda: B + D + "x:=" + "".join(r.choice(["(", "abs(", "v[", "({if} q {then} 1 {else} ", "-(", "2×("]) for i in range(n)) + "1",
        "zero bytes": lambda: B + D + "\0" * n + "a:=1" + E,
    }
    if k is None:
        return sorted(K)
    return U(K[k]())


KINDS = big(1, None, random.Random(0))


def size_case(item):
    """One kind of growing text at one size. [kind, n, variant]"""
    kind, n, variant = item
    r = random.Random(case_hash(kind, n))
    src = big(n, kind, r).encode()
    ev = {}
    with Scratch() as d:
        x = tool(variant).compile(d, src, libs=(build.REPO + "/library/x1algol.lib",), cpu=20)
        v = judge(x, d, ["p.a60"], case_hash(kind, n), src, ev)
    if v:
        v["msg"] = "%s, size %d: %s" % (kind, n, v.get("msg", "")) if v["k"] == "bad" else ""
        return v
    ev["sizes"] = 1
    ev["rejected: " + kind if x.rc else "accepted: " + kind] = 1
    return ok(case_hash(kind, n), ev, sample={"kind": kind, "n": n, "status": x.rc})


# ---------------------------------------------------------------- object programs
NCODE = 125


def word(r):
    k = r.random()
    if k < .45:
        return r.choice([r.randrange(8, 32), r.randrange(12, NCODE), r.randrange(128)])
    if k < .7:
        op = r.choice([0o00220, 0o00244, 0o00320, 0o00350, 0o00400, 0o00600, 0o00640, 0o01200, 0o01220, 0o01240, 0o01600, 0o03431, 0o03620, 0o04020,
                       0o04200, 0o04220, 0o04240, 0o04600, 0o05100, 0o05220, 0o05404, 0o06700, 0o06714, 0o07700, r.randrange(0o10000)])
        return (op << 15) | r.choice([r.randrange(64), r.randrange(32768), 5, 0o61, 0o62, 0o77774, 0o77777, 10144 + r.randrange(40)])
    return r.choice([0, 1, 2**27 - 1, 2**26, r.randrange(2**27), r.randrange(2**15), r.randrange(2**15) | 0o40 << 15,
                     r.randrange(2**15) | 0o06 << 15 | r.randrange(32) << 22, r.randrange(2**15) | 0o60 << 15,
                     r.randrange(2**15) | 0o22 << 15 | r.randrange(1024) << 22])


def mutate_object(r, t):
    L = t.split('\n')
    for _ in range(r.choice([1, 1, 2, 3, 6, 15])):
        idx = [i for i, l in enumerate(L) if OBJLINE.match(l)]
        if not idx:
            break
        k = r.randrange(11)
        i = r.choice(idx)
        a, w = L[i].split()
        w = int(w)
        if k <= 2:
            w = word(r)
        elif k == 3:
            w ^= 1 << r.randrange(27)
        elif k == 4:
            w = (w + r.choice([-1, 1, 32, -32, 64])) % 2**27
        elif k == 5:
            w = int(L[r.choice(idx)].split()[1])
        elif k == 6:
            a = str(r.choice([r.randrange(32768), int(a) + 1, 0, 32767, 32768, 10 ** 6]))
        elif k == 7:
            j = r.randrange(len(L))
            L[j] = r.choice(["", "x", "1 2 3", "  0 0 0", "-1 -1", "99999999999999 99999999999999", "AAAAAAAAAAAAAAAAAAAAA 1 2 3", "\0", "31 31 31 31",
                             "a b c d e", "é", " 31 31 31", " 99 99 99", "12", "x 1", "0x10 5", "1e3 4", "10144 999999999999", "10144 -5", "+5 +6"])
            continue
        elif k == 8:
            # two instructions in a row
            j = r.choice(idx)
            L[i], L[j] = L[j].split()[0] + " " + L[i].split()[1], L[i].split()[0] + " " + L[j].split()[1]
            continue
        elif k == 9 and r.random() < .3:
            del L[r.randrange(len(L)):]
            continue
        elif k == 10 and r.random() < .3:
            L[i:i] = ["%d %d" % (int(a) + q, word(r)) for q in range(r.choice([1, 3, 20]))]
            continue
        L[i] = '%s %s' % (a, w)
    return '\n'.join(L)


_objs = None


def objects():
    """A few compiled programs to start from."""
    global _objs
    if _objs is None:
        _objs = []
        s = 0
        while len(_objs) < 25:
            s += 1
            x, _ = gen.make(s * 77 + 5, size=6, **({} if s % 3 else dict(values=0.5, arrays=1.0)))
            if not x:
                continue
            with Scratch() as d:
                c = tool("plain").compile(d, lang.render(lang.tokens(x[0])))
            if c.rc == 0:
                _objs.append(c.text)
    return _objs


def inputs(r):
    k = r.randrange(8)
    if k == 0:
        return b""
    if k == 1:
        return b"1 2 3 -4.5 6e7 8\n" * 20
    if k == 2:
        return bytes(r.randrange(256) for _ in range(r.randrange(200)))
    if k == 3:
        return b"0" * r.randrange(5000)
    if k == 4:
        return r.choice([b"1e", b"+", b"-", b".", b"1e99999999999999999999", b"9" * 5000, b"\xe2\x8f", b"\xe2\x8f\xa8", b"1\xe2", b"\xcc\xb2", b"\xff\xff", b"\0\0\0",
                         b"1" + b"." * 300, b"e5", b"-e-5", b"1e+"])
    if k == 5:
        return ''.join(r.choice("0123456789+-.e⏨ \n\tabÅé×÷∧") for _ in range(r.randrange(300))).encode()
    if k == 6:
        return bytes(r.choice(b"01") for _ in range(r.randrange(40))) + b"\n"
    return b"\n" * 50


def sim_judge(x, key, files, ev, d, before):
    f = dict(files, **{"got.txt": x.brief()})
    if x.crashed():
        return bad(key, "the simulator crashed: " + x.etext[-1500:], f, events=ev)
    if x.rc not in (0, 1):
        return bad(key, "the simulator ended with status %d" % x.rc, f, events=ev)
    if x.rc == 1 and not x.err.strip():
        return bad(key, "failure without a message on standard error", f, events=ev)
    now = sorted(os.listdir(d))
    if now != before:
        return bad(key, "files %s became %s" % (before, now), f, events=ev)
    if x.rc:
        k = "error: " + re.sub(r"['\"`].*|[0-9]+.*", "", x.etext.strip().split('\n')[-1].replace("Error: ", ""))[:40].strip()
        ev[k] = ev.get(k, 0) + 1
    else:
        ev["completed"] = ev.get("completed", 0) + 1
    return None


def stuck(d, variant, name, inp, args, key, files, ev):
    """The run used up its processor time: is it the program that is endless, or one step of the simulator?"""
    tr = d + "/tr"
    x = tool(variant).sim_run(d, name, inp, ["-d", "--trace=" + tr] + [a for a in args if not a.startswith("--trace")], cpu=3, fsize_mb=40)
    n = 0
    try:
        with open(tr, "rb") as fd:
            data = fd.read()
        n = len(re.findall(rb"(?m)^[0-7]{5}: ", data))
        os.unlink(tr)
    except OSError:
        pass
    if n < 50 and x.hang and len(data) < 30 << 20:
        return bad(key, "the simulator does not come out of one instruction: %d instructions traced in 3 s" % n, files, events=ev)
    ev["endless programs"] = ev.get("endless programs", 0) + 1
    return None


def object_case(item):
    """Mutated object programs."""
    seed, variant = item
    r = random.Random(seed)
    ev = {}
    n = 0
    for i in range(6):
        src = mutate_object(r, r.choice(objects()))
        inp = inputs(r)
        args = r.choice([[], [], [], [], ["-d", "--trace=tr"]])
        key = case_hash(seed, i)
        with Scratch() as d:
            with open(d + "/p.x1", "wb") as f:
                f.write(src.encode('utf-8', 'surrogatepass'))
            if args:
                open(d + "/tr", "w").close()
            from . import harness
            x = harness.run1([tool(variant).sim] + args + ["p.x1"], d, inp, env=tool(variant).env(), cpu=2, fsize_mb=24)
            if x.timeout:
                ev["watchdog"] = ev.get("watchdog", 0) + 1
                continue
            files = {"p.x1": src, "input.txt": inp, "args.txt": ' '.join(args)}
            if x.hang:
                v = stuck(d, variant, "p.x1", inp, args, key, files, ev)
            else:
                v = sim_judge(x, key, files, ev, d, sorted(["p.x1"] + (["tr"] if args else [])))
        if v:
            return v
        n += 1
    return ok(case_hash(seed), ev, n=n, sample={"seed": seed})


HEAD = "{begin} {integer} i,j,k; {real} x,y; {boolean} q; {array} v[-3:7,0:2]; {integer} {array} w[1:5]; {procedure} p(a); {value} a; {array} a; x:=a[1]; " \
       "{procedure} r(n,f); {value} n; {integer} n; {procedure} f; {if} n>0 {then} r(n-1,f) {else} f(n); {real} {procedure} g(z); z:=z+1; "
NUMS = ["0", "1", "-1", "i", "j", "x", "y", "67108863", "-67108863", "1⏨600", "-1⏨-600", "0.5", "1000", "13", "-0.0", "v[1,1]", "w[2]", "EVEN(i)", "i÷2", "1⏨18", "33554432.5"]
CALLS = ["FLOT(%,%,%)", "FIXT(%,%,%)", "ABSFIXT(%,%,%)", "SPACE(%)", "PRSYM(%)", "print(%,%)", "x:=sqrt(%)", "x:=ln(%)", "x:=exp(%)", "x:=sin(%)", "x:=cos(%)", "x:=arctan(%)",
         "i:=entier(%)", "i:=sign(%)", "x:=abs(%)", "x:=(%)↑(%)", "i:=(%)↑(%)", "i:=(%)÷(%)", "x:=(%)/(%)", "x:=(%)×(%)", "i:=(%)+(%)", "i:=(%)-(%)", "i:=XEEN(%)", "SETRANDOM(%)",
         "x:=RANDOM", "i:=RESYM", "x:=read", "i:=read", "v[%,%]:=%", "w[%]:=%", "x:=v[%,%]", "p(v)", "p(w)", "{begin} {array} u[%:%]; u[i]:=% {end}",
         "{begin} {array} u[%:%,0:j,%:i]; x:=u[i,j,k] {end}", "q:=(%)<(%)", "x:=SUM(i,1,4,%)", "i:=EVEN(%)", "NLCR", "TAB", "stop", "PRINTTEXT(`x y÷')", "r(%,NLCR)", "r(%,print)",
         "r(%,SPACE)", "r(%,abs)", "{for} i:=% {step} % {until} % {do} {if} j>20 {then} {goto} L {else} j:=j+1", "g(%)", "x:=g(x)", "x:=g(i)", "x:=g(3)", "r(%,g)", "x:=TIMEOFDAY"]


OP_B, OP_S, OP_A = 0o4220 << 15, 0o1220 << 15, 0o0220 << 15


def words_program(r):
    """An object program of random standard operations with stack references around the top of the stack."""
    depth = 0
    ws = [96]                        # START
    consts = [0, 1, 2, 7, 2**27 - 2, 2**26 - 1, r.randrange(2**27), 0o60 << 15 | 115, (6 << 15) | (2 * 32), 110, (0o40 << 15) | 112]
    base = 300

    def con():
        return base + r.randrange(len(consts))

    def dyn():
        k = r.random()
        d = depth + r.choice([0, 0, 0, 1, -1, -2, 2, 3]) if k < .8 else r.choice([0, 1, 2, 31, 32, 100, 1023, -1])
        return ((max(d, 0) + r.choice([0, 0, 0, 5, 3])) * 32 + r.choice([0, 0, 0, 0, 1, 2, 31])) % 32768
    n = r.randrange(2, 25)
    for _ in range(n):
        k = r.random()
        if k < .35:
            ws += [OP_B | con(), r.choice([34, 34, 32, 22, 24])]
            depth += 1
        elif k < .65:
            ws += [OP_S | dyn(), r.choice([33, 31, 35, 21, 23, 25, 36, 38, 40, 42, 44, 46, 48, 50, 52, 54, 56, 58, 60, 62, r.randrange(8, 64)])]
            depth += r.choice([0, 0, 1])
        elif k < .8:
            ws += [OP_B | con(), r.randrange(8, 128)]
        elif k < .9:
            ws += [OP_A | r.randrange(4), OP_B | (100 + r.randrange(2 * n)), r.choice([8, 9, 10, 11, 12])]
            depth += 5
        else:
            ws.append(r.randrange(8, 128))
    ws.append(97)                    # STOP
    return '\n 0  3  4\n 0  3  4\n\n\n' + ''.join('%5d%10d\n' % (100 + i, w) for i, w in enumerate(ws)) + \
        ''.join('%5d%10d\n' % (base + i, w) for i, w in enumerate(consts))


def words_case(item):
    """Random sequences of standard operations."""
    seed, variant = item
    r = random.Random(seed)
    ev = {}
    for i in range(5):
        src = words_program(r)
        inp = inputs(r)
        key = case_hash(seed, i)
        files = {"p.x1": src, "input.txt": inp}
        with Scratch() as d:
            with open(d + "/p.x1", "w") as f:
                f.write(src)
            from . import harness
            x = harness.run1([tool(variant).sim, "p.x1"], d, inp, env=tool(variant).env(), cpu=4, fsize_mb=24)
            if x.timeout:
                continue
            if x.hang:
                v = stuck(d, variant, "p.x1", inp, [], key, files, ev)
            else:
                v = sim_judge(x, key, files, ev, d, ["p.x1"])
        if v:
            return v
    return ok(case_hash(seed), ev, n=5, sample={"seed": seed, "program": src[:400]})


def program_case(item):
    """Compiled programs with hostile arguments, indices, bounds and depths."""
    seed, variant = item
    r = random.Random(seed)
    ev = {}
    n = 0
    for i in range(4):
        st = []
        for _ in range(r.randrange(1, 8)):
            s = r.choice(CALLS)
            while '%' in s:
                s = s.replace('%', r.choice(NUMS) if r.random() < .8 else "%s%s%s" % (r.choice(NUMS), r.choice("+-×/"), r.choice(NUMS)), 1)
            st.append(s)
        src = U(HEAD + "i:=%d; j:=%d; k:=2; x:=%s; y:=-2.5; " % (r.randrange(-5, 9), r.randrange(4), r.choice(["1.5", "1⏨300", "-7", "0"])) + "; ".join(st) + "; L: {end}")
        inp = inputs(r)
        key = case_hash(seed, i)
        with Scratch() as d:
            with open(d + "/p.a60", "wb") as f:
                f.write(src.encode())
            from . import harness
            e = tool(variant).env()
            e["PATH"] = tool("plain").dir + ":" + e["PATH"]
            x = harness.run1([tool(variant).sim, "p.a60"], d, inp, env=e, cpu=8, fsize_mb=80)
            if x.timeout:
                ev["watchdog"] = ev.get("watchdog", 0) + 1
                continue
            files = {"p.a60": src, "input.txt": inp}
            if x.hang:
                if not os.path.exists(d + "/p.x1"):
                    return bad(key, "the compiler does not end", files, events=ev)
                v = stuck(d, variant, "p.x1", inp, [], key, files, ev)
            else:
                v = sim_judge(x, key, files, ev, d, ["p.a60", "p.x1"])
        if v:
            return v
        n += 1
    return ok(case_hash(seed), ev, n=n, sample={"seed": seed, "source": src[-200:]})


def memcheck_case(item):
    """The simulator under valgrind: decisions on uninitialised data. Compiled programs and mutants."""
    seed, = item
    r = random.Random(seed)
    src = r.choice(objects())
    if seed % 3:
        src = mutate_object(r, src)
    inp = inputs(r)
    ev = {}
    with Scratch() as d:
        with open(d + "/p.x1", "wb") as f:
            f.write(src.encode('utf-8', 'surrogatepass'))
        from . import harness
        x = harness.run1(["valgrind", "-q", "--error-exitcode=99", "--leak-check=no", "--log-file=vg.log", tool("plain").sim, "p.x1"], d, inp,
                         env=tool("plain").env(), cpu=8, fsize_mb=24)
        if x.timeout or x.hang:
            return skip("endless program")
        log = open(d + "/vg.log", errors='replace').read() if os.path.exists(d + "/vg.log") else ""
    if x.rc == 127 and "valgrind" in x.etext:
        return unsure("no valgrind")
    files = {"p.x1": src, "input.txt": inp, "valgrind.txt": log}
    if x.rc == 99 or x.rc < 0:
        return bad(case_hash(seed), "valgrind: " + (log or x.etext)[:1500], files)
    ev["memcheck runs"] = 1
    return ok(case_hash(seed), ev)
