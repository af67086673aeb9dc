"""P17: library tapes. An own coder and decoder of the tape code, random procedures, tapes, programs and faults."""
import glob
import os
import random
import re

from . import build, harness
from .core import bad, ok, skip, unsure, case_hash

# number, name, length reserved by the compiler, on the tape (else in the store of the compiler)
PROCS = {0: ("SUM", True), 7: ("RESYM", True), 8: ("PRSYM", True), 17: ("RANDOM", True), 18: ("SETRANDOM", True),
         1: ("PRINTTEXT", False), 2: ("EVEN", False), 77: ("TIMEOFDAY", False)}
USE = {0: ["y := SUM(i, 1, 3, i)", "y := SUM(i, 1, 2, SUM(j, 1, 2, i × j))", "use SUM"], 7: ["i := RESYM", "use RESYM", "print(RESYM)"],
       8: ["PRSYM(3)", "PRSYM(i + 1)", "use PRSYM"], 17: ["y := RANDOM", "y := RANDOM + RANDOM", "use RANDOM"],
       18: ["SETRANDOM(0.5)", "SETRANDOM(y)"], 1: ["PRINTTEXT(`x')", "PRINTTEXT(`ab c')"], 2: ["i := EVEN(i)", "y := EVEN(j)"],
       77: ["y := TIMEOFDAY", "print(TIMEOFDAY)"]}
OPCS = list(range(8, 62)) + list(range(62, 113))


def read_src(path):
    """[(opc, word)] of a source for the assembler."""
    out = []
    for line in open(path, encoding='utf-8', errors='replace'):
        m = re.match(r'\s*(0x[0-9a-fA-F]+|\d+)\s+(\d+)(?:\s+(\S+))?', line)
        if not m:
            continue
        opc = int(m.group(2))
        w = m.group(3)
        out.append((opc, (int(w, 8) if w.startswith("0") else int(w)) if opc < 8 else 0))
    return out


# ---- the tape code -------------------------------------------------------------------------------------------------
MASKS = [656, 14480, 10880, 2192, 144, 10368, 6800, 0, 12304, 10883, 6288, 4128, 8832, 146, 256, 134, 402, 4144, 16]
SHORT = {33: "0000", 34: "0001"}
for _i, _o in enumerate((16, 56, 58, 85)):
    SHORT[_o] = "001" + format(_i, "02b")
for _i, _o in enumerate((9, 14, 18, 30)):
    SHORT[_o] = "0100" + format(_i, "02b")
for _i, _o in enumerate((13, 17, 19, 20, 31, 35, 39, 61)):
    SHORT[_o] = "0101" + format(_i, "03b")
LONG = [8, 10, 11, 12, 15] + list(range(21, 30)) + [32, 36, 37, 38] + list(range(40, 56)) + [57, 59, 60] + list(range(62, 113))
for _i, _o in enumerate(LONG):
    if _o != 85:
        SHORT[_o] = "011" + format(_i, "07b")
assert len(set(SHORT.values())) == len(SHORT) == 105, len(SHORT)
UNSHORT = {v: k for k, v in SHORT.items()}
HI = {0: "0"}
MID = {0: "00", 1: "0100", 2: "0101", 4: "0110", 5: "0111"}
LO = {1: "00", 2: "010", 3: "011"}


def five(x, table, long):
    if not long and x in table:
        return table[x]
    return "1" + format(x, "05b")


def addr_bits(a, r=None):
    return five(a >> 10 & 31, HI, r and r.random() < .1) + five(a >> 5 & 31, MID, r and r.random() < .1) + \
        five(a & 31, LO, r and r.random() < .1)


def word_bits(opc, w, r=None):
    if opc >= 8:
        return SHORT[opc]
    m = (w >> 15) + opc * 4096
    c = MASKS.index(m) if m in MASKS and not (r and r.random() < .2) else 19
    if c < 2:
        b = format(c, "02b")
    elif c < 4:
        b = format(c + 2, "03b")
    else:
        b = format(c + 44, "06b")
    if c == 19:
        b += addr_bits(m, r)
    return "1" + b + addr_bits(w & 32767, r)


def encode(num, words, r=None):
    """Heptades of one procedure, with the header."""
    b = "1" + format(len(words), "013b") + format(num, "013b") + "".join(word_bits(o, w, r) for o, w in reversed(words))
    b = "0" * (-len(b) % 27) + b
    return [30] + groups(b) + [127, 0, 0, 0]


def groups(b):
    out = []
    for i in range(0, len(b), 27):
        x = b[i:i + 27]
        par = 1 - x.count("1") % 2
        out += [int(x[:6], 2) << 1 | par, int(x[6:13], 2), int(x[13:20], 2), int(x[20:], 2)]
    return out


def bits_of(heps):
    s = ""
    for i in range(0, len(heps), 4):
        g = heps[i:i + 4]
        if len(g) == 4 and sum(bin(x).count("1") for x in g) % 2 != 1:
            raise ValueError("parity of heptades %r" % (g,))
        for j, x in enumerate(g):
            s += format(x >> 1, "06b") if j == 0 else format(x, "07b")
    return s


class Bits:
    def __init__(self, s):
        self.s, self.p = s, 0

    def take(self, n):
        x = self.s[self.p:self.p + n]
        if len(x) < n:
            raise ValueError("tape ends")
        self.p += n
        return x

    def code(self, table):
        x = ""
        while x not in table:
            if len(x) > 12:
                raise ValueError("no code " + x)
            x += self.take(1)
        return table[x]

    def addr(self):
        a = 0
        for t in (HI, MID, LO):
            if self.s[self.p:self.p + 1] == "1":
                a = a * 32 + int(self.take(6)[1:], 2)
            else:
                a = a * 32 + self.code({v: k for k, v in t.items()})
        return a


def decode(heps):
    """(number, words) of one procedure on tape (one tape piece)."""
    while heps and heps[0] == 0:
        heps = heps[1:]
    if not heps or heps[0] != 30:
        raise ValueError("no header")
    b = Bits(bits_of(heps[1:]).lstrip("0"))
    b.take(1)
    n = int(b.take(13), 2)
    num = int(b.take(13), 2)
    words = []
    for _ in range(n):
        if b.s[b.p] == "1":
            b.take(1)
            if b.s[b.p] == "0":
                c = int(b.take(2), 2)
            elif b.s[b.p + 1] == "0":
                c = int(b.take(3), 2) - 2
            else:
                c = int(b.take(6), 2) - 44
            m = b.addr() if c == 19 else MASKS[c]
            words.append((m >> 12, (m & 4095) << 15 | b.addr()))
        else:
            words.append((b.code(UNSHORT), 0))
    if b.take(27) != "1" * 6 + "0" * 21:
        raise ValueError("no terminator")
    if "1" in b.s[b.p:]:
        raise ValueError("more after the terminator")
    return num, words[::-1]


# ---- random procedures ---------------------------------------------------------------------------------------------
def rnd_word(r, n):
    k = r.random()
    if k < .45:
        if r.random() < .3:
            return (r.choice((33, 34, 16, 56, 85)), 0)
        return (r.choice(OPCS), 0)
    if k < .75:
        hi = r.choice([x & 4095 for x in MASKS if x < 4096] + [r.randrange(4096) for _ in range(6)])
        lo = r.choice((r.randrange(32768), r.randrange(4), 1, 0, 2, 3, 32, 64, 128, 160, 1024, 31, 1023, 32767, r.randrange(32)))
        return (0, hi << 15 | lo)
    hi = r.choice([x & 4095 for x in MASKS if x >> 12 == 1] + [r.randrange(3072) for _ in range(3)])
    return (1, hi << 15 | r.randrange(n + 1))


def rnd_proc(r, n):
    if r.random() < .06:
        return [(33, 0)] * n
    ws = []
    while len(ws) < n:
        x = rnd_word(r, n)
        ws += [x] * (r.choice((1, 1, 1, 1, 1, 1, 3, 8)))
    return ws[:n]


def asm_text(r, words):
    out = []
    for i, (o, w) in enumerate(words):
        if r.random() < .05:
            out.append(r.choice(["", "comment", " MCP", "; 3 4"]))
        off = r.choice(["%d", "0%o", "0x%x", "  %d", "%3d"]) % i
        if i < 8 and r.random() < .3:
            off = "%02d" % i
        line = off + r.choice(" \t") + r.choice(["%d", "%2d", " %3d"]) % o
        if o < 8:
            line += " " + r.choice(["%d", "0%o", "0%09o", "0x%X"]) % w
        out.append(line + r.choice(["", "", "  2B 1 A", "\t<-- 8"]))
    return "\n".join(out) + ("\n" if r.random() < .9 else "")


def assemble(t, d, num, text, args=(), stdin=False):
    with open(d + "/m.src", "w") as f:
        f.write(text)
    if stdin:
        return harness.run([t.obj] + list(args) + [str(num)], d, text.encode(), env=t.env(), cpu=t.cpu)
    return harness.run([t.obj] + list(args) + [str(num), "m.src"], d, env=t.env(), cpu=t.cpu)


def loaded(w, base):
    o, x = w
    return x + (base if o == 1 else 0) if o < 8 else o


# ---- programs ------------------------------------------------------------------------------------------------------
def U(s):
    return re.sub(r'\{(\w+)\}', lambda m: "".join("_" + c for c in m.group(1)), s)


def program(r):
    """(source, set of used numbers)"""
    used = set(r.sample(sorted(PROCS), r.choice((0, 1, 2, 3, 4, 5, 8))))
    hide = {n for n in PROCS if n not in used and r.random() < .3}
    st = []
    for n in used:
        for _ in range(r.choice((1, 1, 2, 4))):
            u = r.choice(USE[n])
            if u.startswith("use "):
                u = "use%s(%s)" % (n, u[4:])
            st.append(u)
    r.shuffle(st)
    st = [r.choice(["%s", "%s", "{if} i > 0 {then} %s", "{for} i := 1, 2 {do} %s", "{begin} {integer} k; %s {end}"]) % s for s in st]
    dec = []
    dec.append("{procedure} use0(F); {real} {procedure} F; y := F(i, 1, 2, i)")
    dec.append("{procedure} use7(F); {integer} {procedure} F; i := F")
    dec.append("{procedure} use8(F); {procedure} F; F(2)")
    dec.append("{procedure} use17(F); {real} {procedure} F; y := F")
    for n in hide:
        dec.append("{%s} {procedure} %s(x); {value} x; {integer} x; %s := x + 1" % ("integer", PROCS[n][0], PROCS[n][0]))
        st.append("i := %s(%d)" % (PROCS[n][0], n))
    r.shuffle(dec)
    dec = ["{integer} i, j", "{real} y"] + dec
    nest = ["{integer} q1"] + (["{procedure} P1; {begin} %s {end}" % r.choice(st)] if st else [])
    body = "; ".join(st + (["P1"] if st else []) + ["print(i)"])
    return U("{begin} " + "; ".join(dec) + "; {begin} " + "; ".join(nest) + "; " + body + " {end} {end}"), used


def parse_obj(out):
    """(start address, lowest address, {address: word})"""
    lines = out.decode('utf-8', 'replace').split("\n")
    ad = []
    words = {}
    for x in lines:
        m = re.match(r'^ *(\d+) +(\d+) +(\d+)(?=[A-Z]|$)', x)
        if m:
            a, b, c = map(int, m.groups())
            ad.append(a * 1024 + b * 32 + c)
            continue
        m = re.match(r'^ *(\d+) +(-?\d+)$', x)
        if m:
            words[int(m.group(1))] = int(m.group(2))
    if len(ad) < 2 or not words:
        return None
    return ad[-2], ad[-1], words


def place(words, lo, hi, proc):
    """addresses at which the procedure stands"""
    n = len(proc)
    return [a for a in range(lo, hi - n + 1) if all(words.get(a + i) == loaded(p, a) for i, p in enumerate(proc))]


_std = {}


def std():
    """The procedures as the sources in the repository describe them."""
    if not _std:
        for n, (name, tape) in PROCS.items():
            _std[n] = read_src(build.REPO + "/library/%s.src" % name.lower())
    return _std


def write_tape(d, name, pieces, binary, r):
    heps = []
    for p in pieces:
        heps += [0] * (r.choice((0, 0, 1, 3, 10)) if r else 0) + p
    if binary:
        data = bytes(heps)
    else:
        data = b""
        for i, h in enumerate(heps):
            data += b"%d" % h + (r.choice((b" ", b" ", b" ", b" ", b"\n", b"  ")) if r else b" ")
    with open(d + "/" + name, "wb") as f:
        f.write(data)
    return heps


def make(t, d, r, ev, contents=None):
    """Tape files for a program: (files, args, program, used, contents). Raises Bad."""
    src, used = program(r)
    sizes = {n: len(std()[n]) for n in PROCS}
    cont = dict(contents or {n: rnd_proc(r, sizes[n]) for n, (_, tape) in PROCS.items() if tape})
    pieces = []
    for n, ws in list(cont.items()) + [(m, rnd_proc(r, r.choice((1, 2, r.randrange(1, 40), r.randrange(1, 40), 1024))))
                                       for m in r.sample([x for x in range(128) if x not in cont], r.randrange(5))]:
        if n in cont and n not in used and r.random() < .3:
            continue            # not even on the tape
        if r.random() < .7:
            text = asm_text(r, ws)
            stdin = r.random() < .3
            a = assemble(t, d, n, text, stdin=stdin)
            if a.rc != 0 or a.crashed():
                raise Bad("the assembler fails on a correct procedure\n" + a.brief(), {"m.src": text})
            heps = [int(x) for x in a.out.split()]
            try:
                num, got = decode(heps)
            except ValueError as x:
                raise Bad("the tape of the assembler is wrong: %s" % x, {"m.src": text, "m.lib": a.out})
            if (num, got) != (n, ws):
                i = next((i for i, (p, q) in enumerate(zip(got, ws)) if p != q), -1)
                raise Bad("the tape made by the assembler holds other words than the source: procedure %s for %s, %d words for %d, first difference at %d: %s" %
                          (num, n, len(got), len(ws), i, (got[i], ws[i]) if i >= 0 else ""), {"m.src": text, "m.lib": a.out})
            ev["assembled-words"] = ev.get("assembled-words", 0) + len(ws)
            if r.random() < .3:
                b = assemble(t, d, n, text, args=("-w",), stdin=stdin)
                got = [int(x, 8) for x in re.findall(rb'= (\d+);', b.out)]
                exp = []
                h = heps[1:]
                for i in range(0, len(h), 4):
                    exp.append(h[i] >> 1 << 21 | h[i + 1] << 14 | h[i + 2] << 7 | h[i + 3])
                if b.rc or got != exp[::-1]:
                    raise Bad("the words (-w) differ from the tape", {"m.src": text, "m.lib": a.out, "m.words": b.out})
                ev["word-format"] = ev.get("word-format", 0) + 1
        else:
            heps = encode(n, ws, r)
            ev["own-coder"] = ev.get("own-coder", 0) + 1
        pieces.append((n, heps))
        if r.random() < .15:
            pieces.append((n, heps))        # the same procedure twice
            ev["twice"] = ev.get("twice", 0) + 1
    r.shuffle(pieces)
    binary = r.random() < .3
    nf = r.choice((1, 1, 1, 2, 3))
    files = []
    cut = sorted(r.randrange(len(pieces) + 1) for _ in range(nf - 1))
    parts = [pieces[a:b] for a, b in zip([0] + cut, cut + [len(pieces)])]
    parts = [p for p in parts if p] or [[(99, encode(99, [(33, 0)]))]]
    for i, p in enumerate(parts):
        name = "t%d.lib" % i
        hs = [h for _, h in p]
        if r.random() < .3:
            hs.append([30, 124, 0, 0, 0, 0, 0])
            ev["end-marker"] = ev.get("end-marker", 0) + 1
        write_tape(d, name, hs, binary, r)
        files.append(name)
    return files, (("-b",) if binary else ()) + (("-v",) if r.random() < .1 else ()), src, used, cont


class Bad(Exception):
    def __init__(self, msg, files):
        self.msg, self.files = msg, files


def tape_files(d, files):
    return {f: open(d + "/" + f, "rb").read() for f in files}


def case(item):
    """One tape set and one program: every used procedure is loaded once, intact, where the program expects it."""
    seed, variant = item
    t = harness.tool(variant)
    r = random.Random(seed)
    key = case_hash("lib", seed)
    ev = {}
    with harness.Scratch() as d:
        try:
            files, args, src, used, cont = make(t, d, r, ev)
        except Bad as x:
            return bad(key, x.msg, x.files)
        fs = dict(tape_files(d, files), **{"p.a60": src})
        msg = check_load(t, d, src, files, args, used, cont, ev)
        if msg:
            return bad(key, msg + "\nprogram: " + src + "\ntapes: %s %s, used: %s" % (args, files, sorted(used)), fs)
    ev["loads"] = 1
    ev["used"] = len(used)
    return ok(key, ev, nontrivial=bool(used), sample={"program": src[:200], "used": sorted(used), "files": len(files)} if used else None)


def check_load(t, d, src, files, args, used, cont, ev):
    ref = t.compile(d, src, libs=(harness.LIB,))
    if ref.crashed() or ref.rc != 0:
        return "compiling with the standard library fails\n" + ref.brief()
    res = t.compile(d, src, libs=files, args=args)
    if res.crashed() or res.rc != 0:
        return "compiling with the tapes fails\n" + res.brief()
    R, O = parse_obj(ref.out), parse_obj(res.out)
    if not R or not O:
        return "no object program\n" + res.brief()
    if R[:2] != O[:2]:
        return "start or lowest address differ with another library: %s for %s" % (O[:2], R[:2])
    whole = std()
    need = sum(len(whole[n]) for n in used)
    if R[0] - R[1] != need or set(R[2]) != set(O[2]) or min(O[2]) != O[1] and need:
        return "room for the library is %d words, the used procedures have %d" % (R[0] - R[1], need)
    cover = set()
    for n in sorted(used):
        own = cont[n] if n in cont else whole[n]
        a = place(R[2], R[1], R[0], whole[n])
        b = place(O[2], O[1], O[0], own)
        if len(a) != 1:
            return "%s of the standard library stands at %s in the object program" % (PROCS[n][0], a)
        if a[0] not in b:
            return "%s is expected at %d but stands at %s" % (PROCS[n][0], a[0], b)
        cover |= set(range(a[0], a[0] + len(own)))
        ev["words-compared"] = ev.get("words-compared", 0) + len(own)
        # the program refers to it
        if not any(w & 32767 == a[0] for x, w in R[2].items() if x >= R[0]):
            return "nothing in the program refers to %s at %d" % (PROCS[n][0], a[0])
    if len(cover) != need:
        return "the procedures overlap"
    dif = [x for x in R[2] if x not in cover and R[2][x] != O[2][x]]
    if dif:
        return "other words of the program change with the library: %s" % dif[:5]
    return None


def source_case(item):
    """The library tapes of the repository hold what their sources say."""
    name = item[0]
    fs = [os.path.join(build.REPO, "library", name + ".lib")]
    heps = [int(x) for x in open(fs[0]).read().split()]
    try:
        num, got = decode(heps)
    except ValueError as x:
        return bad(case_hash(name), "%s.lib: %s" % (name, x), sig="tape:" + name)
    n = [k for k, v in PROCS.items() if v[0].lower() == name][0]
    if num != n or got != std()[n]:
        return bad(case_hash(name), "%s.lib does not hold the words of %s.src" % (name, name), sig="tape:" + name)
    t = harness.tool("plain")
    with harness.Scratch() as d:
        a = harness.run([t.obj, str(n), build.REPO + "/library/" + name + ".src"], d, env=t.env())
    try:
        same = decode([int(x) for x in a.out.split()]) == (num, got)
    except ValueError:
        same = False
    if not same:
        return bad(case_hash(name), "assembling %s.src does not give %s.lib" % (name, name), sig="asm:" + name)
    return ok(case_hash(name), {"repository-tapes": 1})


def run_case(item):
    """Programs run alike with the standard tapes in any order, in several files, with others in between."""
    seed, variant = item
    t = harness.tool(variant)
    r = random.Random(seed)
    key = case_hash("librun", seed)
    ev = {}
    src = U("{begin} {integer} i, j; {real} y; SETRANDOM(%s); print(RANDOM); print(SUM(i, 1, %d, i × i)); print(SUM(i, 1, 4, SUM(j, 1, i, j)));"
            "i := RESYM; {for} j := 1 {step} 1 {until} %d {do} {begin} PRSYM(i); i := RESYM {end}; print(EVEN(i)); PRINTTEXT(`t'); y := RANDOM; print(y) {end}"
            % (r.choice(("0.3", "0.71", "0.1")), r.randrange(1, 9), r.randrange(1, 6)))
    inp = "".join(r.choice("abcxyz019+-") for _ in range(20)).encode() + b"\n"
    with harness.Scratch() as d:
        files, args, _, _, _ = make(t, d, r, ev, contents={n: std()[n] for n, v in PROCS.items() if v[1]})
        # all procedures must be there, as text
        for n in (0, 7, 8, 17, 18):
            with open(d + "/x%d.lib" % n, "w") as f:
                f.write(" ".join(map(str, encode(n, std()[n], r))) + "\n")
        xs = ["x%d.lib" % n for n in (0, 7, 8, 17, 18)]
        r.shuffle(xs)
        if "-b" in args:
            files = []
        libs = files + xs
        open(d + "/p.a60", "wb").write(src.encode())
        a = t.sim_run(d, "p.a60", inp)
        oa = open(d + "/p.x1", "rb").read() if os.path.exists(d + "/p.x1") else b""
        b = t.sim_run(d, "p.a60", inp, libs=libs)
        ob = open(d + "/p.x1", "rb").read() if os.path.exists(d + "/p.x1") else b""
        fs = dict(tape_files(d, libs), **{"p.a60": src, "input": inp})
    if a.rc or a.crashed() or b.rc != a.rc or b.out != a.out or b.err != a.err:
        return bad(key, "the program runs differently with the procedures on other tapes %s\n%s\n%s" % (libs, a.brief(), b.brief()), fs)
    if oa != ob:
        return bad(key, "the object program differs with the procedures on other tapes %s" % libs, fs)
    ev["runs"] = 1
    return ok(key, ev)


def error_ok(res):
    """The compiler has given up with a message."""
    return res.rc == 1 and len(res.out.strip()) > 10


def corrupt_case(item):
    """A tape with single faults: error or the same object program."""
    seed, variant, many = item
    t = harness.tool(variant)
    r = random.Random(seed)
    key = case_hash("libbad", seed)
    ev = {}
    with harness.Scratch() as d:
        try:
            files, args, src, used, cont = make(t, d, r, ev, contents={n: std()[n] for n, v in PROCS.items() if v[1]} if r.random() < .3 else None)
        except Bad as x:
            return bad(key, x.msg, x.files)
        good = t.compile(d, src, libs=files, args=args)
        if good.rc != 0 or good.crashed():
            return bad(key, "compiling with the tapes fails\n" + good.brief(), dict(tape_files(d, files), **{"p.a60": src}))
        want = parse_obj(good.out)
        binary = "-b" in args
        plan = [("flip", None)] * many + [("cut", None)] * (many // 4) + [("drop", None), ("length", None)] * 2
        for kind, _ in plan:
            f = r.choice(files)
            raw = open(d + "/" + f, "rb").read()
            heps = list(raw) if binary else [int(x) for x in raw.split()]
            if kind == "flip":
                i = r.randrange(len(heps))
                b = r.randrange(7)
                heps[i] ^= 1 << b
                what = "bit %d of heptade %d of %s inverted" % (b, i, f)
                exp = None
            elif kind == "cut":
                i = r.randrange(len(heps))
                what = "%s cut after %d heptades" % (f, i)
                heps = heps[:i]
                exp = None
            elif kind == "drop":
                need = [n for n in used if n in cont]
                if not need:
                    continue
                gone = set(r.sample(need, 1 if r.random() < .5 else r.randrange(1, len(need) + 1)))
                f = "z.lib"
                ps = [encode(m, cont[m], r) for m in cont if m not in gone]
                r.shuffle(ps)
                heps = sum(ps, [])
                what = "missing: " + ", ".join(PROCS[n][0] for n in sorted(gone))
                exp = "error"
            else:
                need = [n for n in used if n in cont]
                if not need:
                    continue
                n = r.choice(need)
                f = "z.lib"
                k = len(cont[n]) + r.choice((-1, 1, 2, 5, -2, 300))
                k = max(1, k)
                ps = [encode(m, cont[m] if m != n else rnd_proc(r, k), r) for m in cont]
                r.shuffle(ps)
                heps = sum(ps, [])
                what = "procedure %s has %d words" % (PROCS[n][0], k)
                exp = "error"
            data = bytes(heps) if binary else " ".join(map(str, heps)).encode() + b"\n"
            name = "bad.lib"
            open(d + "/" + name, "wb").write(data)
            libs = [name] if f == "z.lib" else [name if x == f else x for x in files]
            res = t.compile(d, src, libs=libs, args=args)
            fs = dict(tape_files(d, libs), **{"p.a60": src})
            ev["fault:" + kind] = ev.get("fault:" + kind, 0) + 1
            if res.hang or res.crashed():
                return bad(key, "the compiler crashes: %s (%s)\n%s" % (what, " ".join(args), res.brief()), fs)
            if res.rc == 0:
                if exp == "error" or parse_obj(res.out) != want:
                    return bad(key, "a wrong tape is loaded without an error: %s (%s)\n%s" % (what, " ".join(args), res.brief()[:600]), fs)
                ev["harmless"] = ev.get("harmless", 0) + 1
            elif not error_ok(res):
                return bad(key, "no error message: %s\n%s" % (what, res.brief()), fs)
            else:
                ev["detected"] = ev.get("detected", 0) + 1
                if kind == "drop" and ps:
                    named = re.findall(rb"^MCP (\d+): (\S+)", res.out, re.M)
                    if sorted(named) != sorted((b"%d" % n, PROCS[n][0].encode()) for n in gone):
                        return bad(key, "the message does not name just the procedures that are %s\n%s" % (what, res.brief()), fs)
                    ev["missing named"] = ev.get("missing named", 0) + len(gone)
                    if len(gone) > 1:
                        ev["several missing"] = ev.get("several missing", 0) + 1
    return ok(key, ev, n=len(plan))


def wild_case(item):
    """Arbitrary tapes: the compiler ends, without access outside its data."""
    seed, variant = item
    t = harness.tool(variant)
    r = random.Random(seed)
    key = case_hash("libwild", seed)
    ev = {}
    with harness.Scratch() as d:
        src, used = program(r)
        if not used & {0, 7, 8, 17, 18}:
            return skip("no tape needed")
        for k in range(6):
            kind = r.randrange(5)
            binary = r.random() < .4
            if kind == 0:
                data = bytes(r.randrange(256 if binary else 128) for _ in range(r.randrange(200)))
                heps = list(data)
            elif kind == 1:         # correct parity, random bits
                b = "".join(r.choice("01") for _ in range(27 * r.randrange(1, 60)))
                heps = [30] + groups("0" * 3 + "1" + format(r.choice((54, 7, 8, 20, 1024, 8191, 0)), "013b") +
                                     format(r.choice((0, 7, 8, 17, 18, 200, 127)), "013b")[3:] + b[:27 * (len(b) // 27)][:27 * 40])
            elif kind == 2:
                heps = [30] + groups("1" * 27) * 3
            else:                   # a right header, then bits with a preference for rare codes
                n = r.choice((0, 7, 8, 17, 18))
                k2 = len(std()[n])
                b = "1" + format(k2, "013b") + format(n, "013b")
                for _ in range(k2):
                    b += r.choice(["011" + format(r.randrange(128), "07b"), "1111111" + "1" + format(r.randrange(32), "05b") + "1" + format(r.randrange(32), "05b") +
                                   "1" + format(r.randrange(32), "05b") + "1" + format(r.randrange(32), "05b") + "1" + format(r.randrange(32), "05b") + "111111"])
                b += "111111" + "0" * 21
                b = "0" * (-len(b) % 27) + b
                heps = [30] + groups(b)
            if binary:
                data = bytes(x & 255 for x in heps)
            else:
                data = " ".join(map(str, heps)).encode()
                if r.random() < .3:
                    i = r.randrange(len(data) + 1)
                    data = data[:i] + r.choice((b" -1 ", b" x ", b"99999999999", b"128", b"-", b"\0", b" 0x1f ")) + data[i:]
            open(d + "/w.lib", "wb").write(data)
            res = t.compile(d, src, libs=("w.lib",) * r.choice((1, 1, 3)), args=(("-b",) if binary else ()) + (("-v",) if r.random() < .3 else ()))
            ev["wild-tapes"] = ev.get("wild-tapes", 0) + 1
            if res.hang or res.crashed():
                return bad(key, "the compiler crashes on an arbitrary tape\n%s" % res.brief(), {"w.lib": data, "p.a60": src})
            if res.rc == 0:
                ev["wild-loaded"] = ev.get("wild-loaded", 0) + 1
            elif not error_ok(res):
                return bad(key, "no error message for an arbitrary tape\n%s" % res.brief(), {"w.lib": data, "p.a60": src})
    return ok(key, ev, n=6)


def damaged_source_case(item):
    """A source line of the assembler that lacks its operation or its word, or is out of sequence, is refused."""
    seed, variant = item
    r = random.Random(seed)
    t = harness.tool(variant)
    n = r.randrange(1, 40)
    words = rnd_proc(r, n)
    k = r.choice(["word", "operation", "sequence"])
    if k == "word" and all(o >= 8 for o, _ in words):
        words[r.randrange(n)] = (r.randrange(4), r.randrange(1 << 15))
    lines = ["%d %d%s" % (i, o, " %d" % w if o < 8 else "") for i, (o, w) in enumerate(words)]
    if k == "word":
        i = r.choice([i for i, (o, _) in enumerate(words) if o < 8])
        lines[i] = "%d %d%s" % (i, words[i][0], r.choice(["", " ", " A := 1", "\tx"]))
    elif k == "operation":
        i = r.randrange(n)
        lines[i] = "%d%s" % (i, r.choice(["", " ", " RET", "  return"]))
    else:
        i = r.randrange(n)
        how = r.randrange(3)
        if how == 0 and i + 1 < n:
            del lines[i]
        elif how == 1:
            lines.insert(i, lines[i])
        else:
            lines[i] = str(i + r.choice([1, 2, 8, -1, 100])) + lines[i][len(str(i)):]
    text = "\n".join(lines) + "\n"
    key = case_hash(text)
    with harness.Scratch() as d:
        a = assemble(t, d, r.randrange(128), text, stdin=r.random() < .3)
    if a.timeout:
        return unsure("watchdog")
    out = a.out + a.err
    if a.crashed() or a.rc == 0 or not out.strip():
        return bad(key, "a source without its %s (line %d) is assembled: exit status %s" % (k, i + 1, a.rc), {"m.src": text, "got.txt": a.brief()})
    return ok(key, {"refused sources: " + k: 1}, sample={"seed": seed, "damage": k, "line": i + 1, "message": out.decode("utf-8", "replace")[-80:]})
