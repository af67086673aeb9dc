"""Notation: one program written in many ways must compile to one object program."""
import glob
import os
import random
import re

from . import build, diff, gen, lang
from .core import ok, bad, skip, unsure, case_hash
from .harness import Scratch, tool

STD = set("read print TAB NLCR XEEN SPACE stop abs sign sqrt sin cos arctan ln exp entier FLOT FIXT ABSFIXT SUM PRINTTEXT EVEN RESYM PRSYM RANDOM "
          "SETRANDOM TIMEOFDAY".split())
WORDS = set("begin end if then else for do step until while goto procedure integer real boolean Boolean array switch value string label own true "
            "false comment".split())
ALIAS = {'×': ['×', '*'], '÷': ['÷', '_:', '__:', ':\u0332'], '↑': ['↑', '|∧', '||∧'], '≤': ['≤', '_<', '__<', '<\u0332'], '≥': ['≥', '_>', '>\u0332'], '≠': ['≠', '|='],
         '≡': ['≡', '_=', '___=', '=\u0332'], '⊃': ['⊃', '_¬'], '⏨': ['⏨', '@']}
INV = {}
for _k, _l in ALIAS.items():
    for _a in _l:
        INV[_a] = _k


# ---------------------------------------------------------------- reading a source text into tokens
TOK = re.compile(r"""(?P<w>(?:_+[a-zA-Z]|[a-zA-Z]\u0332+)+)|(?P<sp>\s+)|(?P<s>(?:`|\|+<))|(?P<id>(?:[A-Za-z](?!\u0332))(?:[A-Za-z0-9](?!\u0332))*)|"""
                 r"""(?P<n>(?:[0-9.⏨@]|(?<=[⏨@])[+-])+)|(?P<o>:=|_+[<>=¬:]|\|+[∧=]|[<>=:]\u0332+|.)""", re.S)


def lex(src):
    """Token list of a program; comments are dropped."""
    out = []
    i = 0
    while i < len(src):
        m = TOK.match(src, i)
        k = m.lastgroup
        t = m.group()
        i = m.end()
        if k == 'sp':
            continue
        if k == 'w':
            w = re.sub('[_\u0332]', '', t)
            if w == 'comment':
                i = src.index(';', i) + 1
                continue
            out.append(('w', w))
            if w == 'end':      # text after end
                m = re.compile(r';|_+e_+n_+d|_+e_+l_+s_+e|e\u0332n\u0332d|e\u0332l\u0332s\u0332e').search(src, i)
                i = m.start() if m else len(src)
        elif k == 's':
            d, j = 1, i
            while d:
                if src[j] == '`' or src[j] == '<' and src[j - 1] == '|':
                    d += 1
                elif src[j] == "'" or src[j] == '>' and src[j - 1] == '|':
                    d -= 1
                j += 1
            e = j - 1 if src[j - 1] == "'" else j - 2
            out.append(('s', src[i:e]))
            i = j
        elif k == 'o':
            out.append(('o', INV.get(re.sub(r'([_|])\1+', r'\1', re.sub('(.)\u0332+', r'_\1', t)), t)))
        else:
            out.append((k, t.replace('@', '⏨') if k == 'n' else t))
    return out


# ---------------------------------------------------------------- writing it
def word(w, r, style):
    if style == 'random':
        style = r.choice(['ascii', 'combining', 'mixed', 'multi'])
    if style == 'ascii':
        return ''.join('_' + c for c in w)
    if style == 'combining':
        return ''.join(c + '\u0332' for c in w)
    if style == 'multi':
        return ''.join(r.choice(['_' * r.choice([1, 1, 2, 3]) + c, c + '\u0332' * r.choice([1, 1, 2, 3])]) for c in w)
    return ''.join('_' + c if r.random() < .5 else c + '\u0332' for c in w)


COMTEXT = ["", "x", " a comment ", " begin end ", "if a then b else c", " 1 2 3.5 ", "(unbalanced", "`quote", "don't", " := + - × / [ ] \n next line", "\t",
           "_b_e_g_i_n", "e\u0332n\u0332d\u0332", "|<", "a|=b", "⏨", "@@", "?\"", "÷ ≤ ≥ ≠ ≡ ∧ ∨ ⊃ ¬ ↑", "comment", "_c_o_m_m_e_n_t again",
           "_", "under_", "a_b_c", "d|", "x\u0332", "_e_n_d", "e\u0332n\u0332d\u0332", "y :", "<", "5", "5.", "1@", "`"]
# brackets, colons, quotes and other words after end are not taken as comment by this compiler (it stops on them)
ENDTEXT = ["x", " of block", " loop 12", "a b c", "+ - ×", "1.5", " proc1\n", "\n\n", " = ", ",", "print"]


def write(toks, r, o):
    """o: options"""
    out = []
    gap = o['gap']

    def space():
        if r.random() < gap:
            return r.choice([' ', ' ', '\t', '\n', '  ', '\n\n', ' \n\t', o['nl'] + ' '])
        return ''

    def chars(t):
        """letters and digits of identifiers and numbers, maybe with blanks between"""
        s = ''
        for c in t:
            if s and r.random() < o['inner']:
                s += r.choice([' ', ' ', '\n', '\t'])
            s += r.choice(ALIAS['⏨']) if c == '⏨' else c
        return s

    prev = None
    for n, t in enumerate(toks):
        k = t[0]
        if k == 'nl':
            out.append('\n')
            prev = 'nl'
            continue
        out.append(space())
        if k == 'w':
            if prev == 'w' and not (out and out[-1]):
                out.append(r.choice([' ', '\n', '\t']))
            w = t[1]
            if w in ('boolean', 'Boolean'):
                w = r.choice(['boolean', 'Boolean']) if o['Bool'] else w
            out.append(word(w, r, o['style']))
            if w == 'begin' and r.random() < o['comment']:
                out.append(r.choice([' ', '\n']) + word('comment', r, o['style']) + comment(r) + ';')
            if w == 'end' and n + 1 < len(toks) and r.random() < o['endtext'] and toks[n + 1] in (('o', ';'), ('w', 'end'), ('w', 'else')):
                out.append(' ' + r.choice(ENDTEXT) + ' ')
        elif k in ('id', 'n'):
            out.append(chars(t[1]))
        elif k == 's':
            q = r.choice([('`', "'"), ('|<', '|>'), ('`', '|>'), ('||<', "'")]) if o['ops'] == 'random' else ('`', "'")
            s = t[1]
            if o['ops'] == 'random':
                s = ''.join(r.choice(ALIAS[c]) if c in '×⏨' and r.random() < .5 else c for c in s)
            out.append(q[0] + s + q[1])
        elif k == 'o':
            c = t[1]
            if c in ALIAS and o['ops'] != 'uni':
                c = ALIAS[c][1] if o['ops'] == 'ascii' else r.choice(ALIAS[c])
            out.append(c)
            if c == ';' and r.random() < o['comment']:
                out.append(space() + word('comment', r, o['style']) + comment(r) + ';')
        prev = k
    s = ''.join(out)
    if o['nl'] == '\r\n':
        s = s.replace('\r\n', '\n').replace('\n', '\r\n')
    return s + r.choice(['', '\n', '\n\n', ' \n'])


def comment(r):
    return r.choice(['', ' ']) + ' '.join(r.choice(COMTEXT) for _ in range(r.randrange(0, 3)))


def options(r):
    return {'style': r.choice(['ascii', 'combining', 'mixed', 'multi', 'random', 'random']), 'ops': r.choice(['uni', 'ascii', 'random', 'random']),
            'gap': r.choice([0, 0, .1, .4, .8]), 'inner': r.choice([0, 0, 0, .05, .3]), 'comment': r.choice([0, 0, .2, .6]),
            'endtext': r.choice([0, 0, .3, .8]), 'nl': r.choice(['\n', '\n', '\n', '\r\n']), 'Bool': r.random() < .5}


PLAIN = {'style': 'ascii', 'ops': 'uni', 'gap': 0, 'inner': 0, 'comment': 0, 'endtext': 0, 'nl': '\n', 'Bool': False}


def compile_(src, variant="plain"):
    with Scratch() as d:
        x = tool(variant).compile(d, src)
        return x, x.out if x.rc == 0 and not x.crashed() else None


def ids(toks):
    return sorted({t[1] for t in toks if t[0] == 'id'} - STD)


EXTRA = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


def lengthen(toks, r):
    """Names of nine or more characters get other characters after the ninth."""
    m = {}
    out = []
    for t in toks:
        if t[0] == 'id' and t[1] not in STD and len(t[1]) >= 9:
            # every occurrence may differ
            t = ('id', t[1][:9] + ''.join(r.choice(EXTRA) for _ in range(r.randrange(0, 9))))
        out.append(t)
    del m
    return out


def rename_long(toks, r):
    """All user names become names of nine characters or more, distinct within nine."""
    used = {s[:9] for s in STD}
    m = {}
    for n in ids(toks):
        while True:
            k = r.random()
            L = r.choice([1, 2, 3, 4, 5, 6, 8, 9, 9, 9, 10, 14])
            v = r.choice(EXTRA[:52]) + ''.join(r.choice(EXTRA if k < .6 else 'Zz9a') for _ in range(L - 1))
            if v[:9] not in used:
                break
        used.add(v[:9])
        m[n] = v
    return [('id', m[t[1]]) if t[0] == 'id' and t[1] in m else t for t in toks]


def words_of(obj):
    """The object program without its names: they follow the first letter-starting lines."""
    return [l for l in obj.decode('utf-8', 'replace').split('\n') if re.match(r'\s*\d+\s+-?\d+\s*$', l)]


def check(toks, r, key, variant, ev, files, runs, inp=b''):
    """All notations against the plain one. Returns an outcome or None."""
    x0, o0 = compile_(write(toks, random.Random(1), PLAIN))
    if x0.timeout:
        return unsure("watchdog")
    if x0.rc != 0 or o0 is None:
        return skip("does not compile: " + x0.text[-60:].replace('\n', ' '))
    for i in range(runs):
        o = options(r)
        s = write(toks, r, o)
        x, ob = compile_(s, variant)
        if x.timeout:
            return unsure("watchdog")
        ev["notations"] = ev.get("notations", 0) + 1
        for k in ('style', 'ops'):
            ev["%s:%s" % (k, o[k])] = ev.get("%s:%s" % (k, o[k]), 0) + 1
        for k in ('gap', 'inner', 'comment', 'endtext'):
            if o[k]:
                ev[k] = ev.get(k, 0) + 1
        if x.rc != 0 or ob != o0 or x.crashed():
            return bad(key, "another notation of the program compiles differently (%s): %s" % (o, x.text[-300:]),
                       dict(files, **{"plain.a60": write(toks, random.Random(1), PLAIN), "other.a60": s, "plain.x1": o0, "other.x1": ob or b'',
                                      "got.txt": x.brief()}), events=ev)
    return None


def case(item):
    """A generated program."""
    seed, cname, variant = item
    r = random.Random(seed)
    x, why = gen.make(seed, **diff.CFG[cname])
    if x is None:
        return skip(why)
    block, out, good, _ = x
    toks = [t for t in lang.tokens(block) if t[0] != 'nl' or r.random() < .5]
    toks = [t if not (t[0] == 'n') else ('n', t[1].replace('@', '⏨')) for t in toks]
    ev = {}
    key = case_hash(seed, cname)
    b = check(toks, r, key, variant, ev, {}, 3)
    if b:
        return b
    # names
    t2 = rename_long(toks, r)
    s2 = write(t2, random.Random(1), PLAIN)
    _, o2 = compile_(s2)
    ev["renamed"] = 1
    if o2 is None:
        return bad(key, "with other names the program does not compile", {"program.a60": s2, "original.a60": write(toks, random.Random(1), PLAIN)}, events=ev)
    t3 = lengthen(t2, r)
    s3 = write(t3, r, options(r))
    x3, o3 = compile_(s3)
    if x3.rc or o3 != o2:
        return bad(key, "characters after the ninth of a name change the object program", {"program.a60": s2, "other.a60": s3, "got.txt": x3.brief()}, events=ev)
    res = tool("plain").x1(o2)
    if res.timeout:
        return unsure("watchdog")
    if not diff.agree(res, out, good):
        return bad(key, "with other names the program gives another result", {"program.a60": s2, "original.a60": write(toks, random.Random(1), PLAIN),
                                                                            "expected.txt": out, "got.txt": res.brief()}, events=ev)
    return ok(key, ev, sample={"seed": seed, "renamed": s2[:300]}, n=5)


def sources():
    return sorted(glob.glob(build.REPO + "/examples/*.a60") + glob.glob(build.REPO + "/tests/*.a60"))


def source_case(item):
    """A program of the repository, re-notated."""
    name, seed, variant = item
    r = random.Random(seed)
    src = open(name, encoding='utf-8').read()
    try:
        toks = lex(src)
    except (ValueError, IndexError, AttributeError):
        return skip("not read")
    x, ob = compile_(src)
    if x.rc or ob is None:
        return skip("does not compile")
    x0, o0 = compile_(write(toks, random.Random(1), PLAIN))
    key = case_hash(name, seed)
    if o0 != ob:
        return bad(key, "%s without its comments and layout compiles differently: %s" % (name, x0.text[-200:]),
                   {"other.a60": write(toks, random.Random(1), PLAIN)})
    ev = {}
    b = check(toks, r, key, variant, ev, {}, 4)
    return b or ok(key, ev, sample={"program": os.path.basename(name)}, n=5)


# ---------------------------------------------------------------- every symbol next to every other
PIECES = ["{boolean} b,c; {integer} i,j; {real} x; {array} a[-1:3,0:j0]; j0:=1;"]
TINY = [
    "i:=i+j-i×j/i÷j↑2", "b:=i<j∧i≤j∨i=j≡i≥j⊃i>j∨¬i≠j", "x:=.5⏨-3+5⏨+2-⏨1×3.25", "{if} b≡c⊃¬b {then} i:=1 {else} i:=2",
    "{for} i:=1 {step} 1 {until} 3,5,j {while} i<j {do} j:=j+1", "{goto} l; l: m: i:=j:=3", "a[i,j]:=a[-i+1,j÷2]", "{begin} {own} {integer} q; q:=q+1; print(q) {end}",
    "{begin} {switch} s:=l1,l2; {goto} s[i]; l1: l2: {end}", "{begin} {procedure} p(a,b,c); {value} a; {integer} a; {string} b; {label} c; {begin} PRINTTEXT(b); {goto} c {end}; "
    "p(1,`a÷b≤c_<d|=e ×⏨ `x' y',l3); l3: {end}", "b:={true}; c:={false}∧b", "{begin} {real} {procedure} f(x); {value} x; {real} x; f:=x↑.5; x:=f(2) {end}", "x:=abs(-3)+entier(2.5)↑2",
    "{if} i=1 {then} {begin} print(1) {end} {else} {if} b {then} print(2)", "{begin} {boolean} {array} q[1:2]; {integer} {array} r,s[0:1],t[2:3]; q[1]:=b; r[0]:=s[1]:=t[2] {end}"]


def tiny_case(item):
    """Small programs with every kind of symbol, in many notations."""
    seed, variant = item
    r = random.Random(seed)
    body = [r.choice(TINY) for _ in range(r.randrange(1, 5))]
    n = 0
    txt = []
    for b in body:
        n += 1
        for l in ('l1', 'l2', 'l3', 'l', 'm'):
            b = re.sub(r'\b%s\b' % l, l + 'xyz'[n % 3] + str(n), b)
        txt.append(b)
    from .numtest import U
    src = U("{begin} {boolean} b,c; {integer} i,j; {real} x; {array} a[-1:3,0:4]; " + "; ".join(txt) + " {end}")
    toks = lex(src)
    ev = {}
    key = case_hash(seed)
    b = check(toks, r, key, variant, ev, {}, 8)
    return b or ok(key, ev, sample={"source": src[:200]}, n=8)
