"""P21: library procedures: generated programs around SUM, EVEN, XEEN and PRINTTEXT, judged by the reference; RANDOM and TIMEOFDAY by monitors of their own."""
import os
import random
import re
import time
from fractions import Fraction

from . import build, num as N
from .core import bad, ok, skip, unsure, case_hash
from .diff import agree, describe, render
from .exprtest import V
from .harness import tool, run, Scratch
from .lang import D, Block, Discard, Interp, tokens
from .libtest import U

MAXI = (1 << 26) - 1


def lit(v):
    if not N.is_int(v):
        v = N.from_frac(v) if v.denominator > 1 else int(v)
    neg = v.m < 0 if isinstance(v, N.R) else v < 0
    return ('neg', ('num', N.neg(v))) if neg else ('num', v)


def string(r):
    """Text of a string; brackets of strings inside are balanced."""
    k = r.random()
    if k < .06:
        return ""
    n = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 20, 31, 40]) if k < .95 else r.randrange(60, 700)
    cs = r.choice(["abcdefghijklmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "0123456789", "+-×/÷↑=≠≤≥<>¬∧∨⊃≡,.⏨:;()[]", "  \n\t ab", "abcXYZ019 +-×/÷↑=≠≤≥<>¬∧∨⊃≡,.⏨:;()[]?\"\n\t"])
    out = []
    d = 0
    for _ in range(n):
        q = r.random()
        if q < .04:
            out.append('`')
            d += 1
        elif q < .08 and d:
            out.append("'")
            d -= 1
        else:
            out.append(r.choice(cs))
    return ''.join(out) + "'" * d


class G:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.ev = {}
        self.n = 0

    def cnt(self, k):
        self.ev[k] = self.ev.get(k, 0) + 1

    def name(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    # a scope: ints, reals (readable), ctl (expressions usable as controlled variables), funs, strs, sprocs; 'busy' are controlled variables in use
    def sub(self, sc, **kw):
        s = dict(sc)
        s.update(kw)
        return s

    def expr(self, sc, typ, d):
        r = self.r
        if d <= 0:
            return self.leaf(sc, typ)
        k = r.random()
        if typ == 'i':
            if k < .10:
                return self.leaf(sc, 'i')
            if k < .30:
                return self.bin(sc, 'i', d)
            if k < .50:
                self.cnt('EVEN')
                return ('even', self.expr(sc, 'i', d - 1) if r.random() < .8 else lit(r.choice([0, 1, -1, 2, -2, MAXI, -MAXI, MAXI - 1, r.randint(-MAXI, MAXI)])))
            if k < .62 and sc['xeen']:
                self.cnt('XEEN')
                return ('xeen', self.mask(sc, d))
            if k < .85:
                s = self.sum(sc, d)
                if s:
                    return ('std', 'entier', s)
            f = self.fun(sc, 'i', d)
            return f or self.leaf(sc, 'i')
        if k < .08:
            return self.leaf(sc, 'r')
        if k < .22:
            return self.bin(sc, 'r', d)
        if k < .30:
            return self.expr(sc, 'i', d - 1)
        if k < .36:
            return ('if', self.cond(sc, d - 1), self.expr(sc, 'r', d - 1), self.expr(sc, 'r', d - 1))
        if k < .75:
            return self.sum(sc, d) or self.leaf(sc, 'r')
        return self.fun(sc, 'r', d) or self.leaf(sc, 'r')

    def cond(self, sc, d):
        return ('rel', self.r.choice('<≤=≥>≠'), self.expr(sc, 'r', d), self.expr(sc, 'r', d - 1))

    def mask(self, sc, d):
        r = self.r
        k = r.random()
        if k < .5:
            return lit(r.choice([0, 1, 2, 3, 7, 1023, 1 << r.randrange(26), MAXI, -1, -2, -1 - (1 << r.randrange(25)), -MAXI, r.randint(0, MAXI), -r.randint(1, MAXI)]))
        return self.expr(sc, 'i', d - 1)

    def leaf(self, sc, typ):
        r = self.r
        if r.random() < .3:
            return lit(r.randint(-9, 30)) if typ == 'i' or r.random() < .5 else lit(Fraction(r.randint(-20, 60), 2))
        return r.choice(sc['ints' if typ == 'i' or r.random() < .4 else 'reals'])

    def bin(self, sc, typ, d):
        r = self.r
        o = r.choice('++--×')
        b = self.expr(sc, typ, d - 1) if o != '×' else lit(r.randint(-4, 7)) if r.random() < .6 else self.leaf(sc, typ)
        return ('bin', o, self.expr(sc, typ, d - 1), b)

    def sum(self, sc, d):
        """A SUM with a free controlled variable."""
        r = self.r
        free = [v for v in sc['ctl'] if v not in sc['busy']]
        if not free:
            return None
        v = r.choice(free)
        self.cnt('SUM')
        self.cnt('controlled ' + v[0] + (' formal' if v[0] == 'var' and v[1].mode else ' real' if v[1].typ == 'r' else ''))
        if sc['busy']:
            self.cnt('nested SUM')
        lo = r.randint(-6, 6)
        hi = lo + r.choice([-9, -2, -1, 0, 0, 1, 2, 3, 4, 5, 8])
        if r.random() < .03:
            lo, hi = r.choice([(MAXI - 3, MAXI - 1), (-MAXI, 2 - MAXI), (0, 60), (-40, 40)])
        if hi < lo:
            self.cnt('empty SUM')
        lo, hi = lit(lo), lit(hi)
        if r.random() < .25:
            lo = self.small(sc)
        if r.random() < .25:
            hi = self.small(sc)
        if r.random() < .06:
            lo = ('bin', '+', lo, lit(Fraction(r.randint(-6, 7), 4)))
            self.cnt('real bound')
        inner = self.sub(sc, busy=sc['busy'] + [v])
        vs = [v] * 3
        if v[1].typ == 'r':
            inner['reals'] = sc['reals'] + vs
        else:
            inner['ints'] = sc['ints'] + vs
        return ('sum', v, lo, hi, self.expr(inner, 'r', d - 1))

    def small(self, sc):
        """An integer in -4 .. 4 ."""
        e = self.r.choice(sc['ints'])
        k = self.r.randint(2, 4)
        return ('bin', '-', e, ('bin', '×', ('par', ('bin', '÷', e, lit(k))), lit(k)))

    def fun(self, sc, typ, d):
        r = self.r
        fs = [f for f in sc['funs'] if f.typ == typ]
        if not fs:
            return None
        f = r.choice(fs)
        args = self.args(sc, f, d)
        if args is None:
            return None
        self.cnt('in function')
        return ('call', f, args)

    def args(self, sc, f, d):
        r = self.r
        args = []
        busy = sc['busy']
        late = []
        for p in f.params:
            if p.kind == 'proc':
                fs = [g for g in sc['funs'] if g.typ == p.typ and len(g.params) == 1 and g.params[0].spec == 'num']
                if not fs:
                    return None
                args.append(('proc', r.choice(fs)))
            elif p.kind == 'string':
                args.append(self.str(sc))
            elif p.spec == 'ctl':
                free = [v for v in sc['ctl'] if v not in busy]
                if not free:
                    return None
                v = r.choice(free)
                busy = busy + [v]
                self.cnt('controlled variable through a formal')
                args.append(v)
            elif p.spec == 'depth':
                args.append(lit(r.randrange(4)))
            elif p.spec == 'small':
                args.append(lit(r.randint(-3, 5)) if r.random() < .7 else self.small(sc))
            elif p.mode == 'name':
                late.append(len(args))
                args.append(p)
            else:
                args.append(self.expr(sc, p.typ, min(d - 1, 2)))
        for i in late:
            p = args[i]
            inner = self.sub(sc, busy=busy, ints=sc['ints'] + [v for v in busy if v not in sc['busy'] and v[1].typ == 'i'] * 3,
                             reals=sc['reals'] + [v for v in busy if v not in sc['busy'] and v[1].typ == 'r'] * 3)
            self.cnt('term through a formal')
            args[i] = self.expr(inner, p.typ, d - 1)
        return args

    def str(self, sc):
        if sc['strs'] and self.r.random() < .6:
            return ('strf', self.r.choice(sc['strs']))
        return ('str', string(self.r))

    # ---------------------------------------------------------- procedures
    def par(self, spec, typ='r', mode='value'):
        p = D('var', self.name('f'), typ, mode=mode)
        p.spec = spec
        p.assigned = spec == 'ctl'
        return p

    def procs(self, sc):
        r = self.r
        for kind in r.sample(['twice', 'pass', 'tree', 'deep', 'apply', 'local', 'square', 'square', 'parity', 'nest'], r.randint(3, 8)):
            h = D('proc', self.name('q'), 'r')
            h.spec = kind
            b = Block()
            loc = []
            if kind in ('pass', 'tree', 'deep', 'apply', 'local', 'nest'):
                for _ in range(r.randint(1, 2) if kind != 'nest' else 2):
                    x = D('var', self.name('l'), 'i' if r.random() < .9 else 'r')
                    loc.append(x)
            loc.sort(key=lambda x: x.typ)
            L = [V(x) for x in loc]
            inner = self.sub(sc, ctl=L, busy=[])
            if kind == 'twice':
                t = self.par('term', 'r', 'name')
                h.params = [t]
                e = ('bin', '+', V(t), V(t))
            elif kind == 'pass':
                q, t = self.par('ctl', 'i', 'name'), self.par('term', 'r', 'name')
                lo, hi = self.par('small', 'i', r.choice(['value', 'name'])), self.par('small', 'i', r.choice(['value', 'name']))
                h.params = [q, lo, hi, t]
                r.shuffle(h.params)
                e = ('sum', V(q), V(lo), V(hi), V(t) if r.random() < .6 else ('bin', r.choice('+-'), V(t), V(q)))
            elif kind == 'tree':
                n = self.par('depth', 'i')
                h.params = [n]
                f = ('call', h, [L[0]]) if loc[0].typ == 'i' else ('call', h, [('bin', '-', V(n), lit(1))])
                e = ('if', ('rel', '≤', V(n), lit(0)), self.leaf(sc, 'r'),
                     ('sum', L[0], lit(0), ('bin', '-', V(n), lit(1)), ('bin', '+', f, self.expr(self.sub(inner, ints=sc['ints'] + [V(n)], busy=L), 'r', 1))))
            elif kind == 'deep':
                n, t = self.par('depth', 'i'), self.par('term', 'r', 'name')
                h.params = [n, t] if r.random() < .5 else [t, n]
                nx = {n: ('bin', '-', V(n), lit(1)), t: ('sum', L[0], lit(1), lit(2), ('bin', r.choice('+-'), V(t), L[0]))}
                e = ('if', ('rel', '≤', V(n), lit(0)), V(t), ('call', h, [nx[p] for p in h.params]))
            elif kind == 'apply':
                f = D('proc', self.name('f'), 'r', mode='name', params=[self.par('num', 'r')])
                h.params = [f, self.par('small', 'i')]
                e = ('sum', L[0], lit(r.randint(-2, 2)), V(h.params[1]), ('call', f, [L[0]]))
                e = ('bin', '+', e, e) if r.random() < .2 else e
            elif kind == 'nest':
                n, t = self.par('small', 'i'), self.par('term', 'r', 'name')
                h.params = [n, t]
                e = ('sum', L[0], lit(1), V(n), ('sum', L[1], lit(1), L[0] if loc[0].typ == 'i' else lit(2), ('bin', '×', V(t), L[1])))
            elif kind == 'local':
                p = self.par('num', 'r', 'value')
                h.params = [p]
                e = self.expr(self.sub(inner, reals=sc['reals'] + [V(p)] * 2), 'r', 3)
            elif kind == 'square':
                p = self.par('num', 'r', 'value')
                h.params = [p]
                e = self.expr(self.sub(inner, ctl=[], reals=[V(p)], ints=[lit(2)], funs=[]), 'r', 2)
            else:
                h.typ = 'i'
                p = self.par('num', 'i', 'value')
                h.params = [p]
                e = ('even', self.expr(self.sub(inner, ctl=[], ints=[V(p)] * 3 + [lit(1)]), 'i', 2))
            b.decls = loc
            b.stmts = [('assign', [('fres', h)], e)]
            h.body = ('block', b) if loc else b.stmts[0]
            h.local = b
            sc['decls'].append(h)
            sc['funs'] = sc['funs'] + [h]

    def strprocs(self, sc):
        """Procedures with strings as parameters."""
        r = self.r
        for kind in r.sample(['say', 'pass', 'rep', 'pick', 'both', 'app', 'late'], r.randint(2, 6)):
            h = D('proc', self.name('s'))
            s = D('string', self.name('f'), mode='name')
            if kind == 'say':
                h.params, st = [s], [('text', ('strf', s))]
            elif kind == 'pass':
                if not sc['sprocs']:
                    continue
                h.params = [s]
                st = [self.scall(self.sub(sc, strs=[s])) for _ in range(r.randint(1, 2))]
            elif kind == 'rep':
                n = self.par('depth', 'i', r.choice(['value', 'name']))
                h.params = [n, s] if r.random() < .5 else [s, n]
                a = {n: ('bin', '-', V(n), lit(1)), s: ('strf', s)}
                st = [('if', ('rel', '>', V(n), lit(0)), ('comp', [('pcall', h, [a[p] for p in h.params]), ('text', ('strf', s))]), None)]
            elif kind == 'pick':
                c, t = self.par('num', 'r', r.choice(['value', 'name'])), D('string', self.name('f'), mode='name')
                h.params = [s, t, c]
                r.shuffle(h.params)
                st = [('if', ('rel', '>', V(c), lit(0)), ('text', ('strf', s)), ('text', ('strf', t)))]
            elif kind == 'both':
                t = D('string', self.name('f'), mode='name')
                h.params = [s, t]
                st = [('text', ('strf', t)), ('text', ('str', string(r))), ('text', ('strf', s)), ('text', ('strf', t))]
            elif kind == 'app':
                f = D('proc', self.name('f'), None, mode='name', params=[D('string', 'x', mode='name')])
                h.params = [f, s]
                st = [('pcall', f, [('strf', s)]), ('pcall', f, [('str', string(r))])]
            else:       # the string is looked at from an inner procedure
                g = D('proc', self.name('s'), params=[])
                g.body = ('text', ('strf', s))
                h.params = [s]
                b = Block()
                x = D('var', self.name('l'), 'i')
                b.decls = [x, g]
                b.stmts = [('assign', [V(x)], lit(1)), ('pcall', g, []), ('print', [V(x)]), ('pcall', g, [])]
                h.body = ('block', b)
                sc['decls'].append(h)
                sc['sprocs'] = sc['sprocs'] + [h]
                continue
            h.spec = kind
            h.body = ('comp', st) if len(st) > 1 or st[0][0] == 'if' else st[0]
            sc['decls'].append(h)
            sc['sprocs'] = sc['sprocs'] + [h]

    def scall(self, sc):
        r = self.r
        fs = sc['sprocs']
        if not fs or r.random() < .15:
            return ('text', self.str(sc))
        h = r.choice(fs)
        args = []
        for p in h.params:
            if p.kind == 'proc':
                g = [x for x in fs if len(x.params) == 1]
                args.append(('proc', r.choice(g)) if g and r.random() < .7 else ('stdf', 'PRINTTEXT'))
            elif p.kind == 'string':
                args.append(self.str(sc))
            elif p.spec == 'depth':
                args.append(lit(r.randrange(4)))
            else:
                args.append(self.expr(self.sub(sc, strs=[]), 'r', 1))
        self.cnt('string call')
        return ('pcall', h, args)

    # ---------------------------------------------------------- statements
    def stmt(self, sc, d=2):
        r = self.r
        k = r.random()
        nl = ('nlcr',)
        if k < .35:
            return ('comp', [('print', [self.expr(sc, r.choice('iir'), r.randint(1, 4))]), nl])
        if k < .45:
            v = r.choice([x for x in sc['ctl'] if x not in sc['busy']])
            return ('comp', [('assign', [v], self.expr(self.sub(sc, busy=sc['busy'] + [v]), v[1].typ, 3)), ('print', [v]), nl])
        if k < .53:
            return ('if', self.cond(sc, 2), self.stmt(sc, d - 1) if d > 0 else nl, self.stmt(sc, d - 1) if d > 0 else None)
        if k < .62 and d > 0:
            free = [x for x in sc['ctl'] if x not in sc['busy'] and x[0] == 'var']
            if free:
                v = r.choice(free)
                inner = self.sub(sc, busy=sc['busy'] + [v])
                lo = r.randint(0, 3)
                hi = lit(lo + r.randint(0, 3)) if r.random() < .5 else ('bin', '+', lit(lo), ('even', self.leaf(inner, 'i')))
                el = [('step', lit(lo), lit(1), hi)]
                if r.random() < .4:
                    el.append(('e', self.expr(inner, 'r', 2)))
                return ('for', v, el, self.stmt(inner, d - 1))
        if k < .70 and sc['xeen']:
            self.cnt('stop')
            return ('comp', [('stop',), ('print', [('xeen', self.mask(sc, 2))]), nl])
        if k < .76:
            # an element selected by a library procedure
            a = r.choice(sc['arrs'])
            i = ('idx', a, [('bin', '+', ('even', self.expr(sc, 'i', 2)), lit(r.randint(1, 4)))])
            self.cnt('subscript')
            return ('comp', [('assign', [i], self.expr(sc, 'i' if a.typ == 'i' else 'r', 2)), ('print', [('idx', a, [lit(k)]) for k in range(6)]), nl])
        return self.scall(sc)

    def program(self):
        r = self.r
        b = Block()
        gi = [D('var', self.name('i'), 'i') for _ in range(4)]
        gr = [D('var', self.name('x'), 'r') for _ in range(2)]
        ga = D('arr', 'ga', 'i', bounds=[(lit(0), lit(5))], ndim=1)
        gx = D('arr', 'gx', 'r', bounds=[(lit(0), lit(5))], ndim=1)
        c = D('var', 'c', 'i')
        ctl = [V(v) for v in gi] + [V(r.choice(gr)), ('idx', ga, [lit(2)]), ('idx', ga, [V(c)]), ('idx', gx, [lit(3)])]
        sc = dict(ints=[V(v) for v in gi] + [('idx', ga, [lit(k)]) for k in (0, 1)], reals=[V(v) for v in gr] + [('idx', gx, [lit(k)]) for k in (0, 1)],
                  ctl=ctl, busy=[], funs=[], strs=[], sprocs=[], arrs=[ga, gx], xeen=r.random() < .6, decls=[])
        # procedures do not use the global variables as controlled variables
        self.procs(sc)
        self.strprocs(sc)
        b.decls = gi + [c] + gr + [ga, gx] + sc['decls']
        st = []
        for v in gi:
            st.append(('assign', [V(v)], lit(r.randint(-9, 20))))
        st.append(('assign', [V(c)], lit(r.choice([2, 4]))))
        for v in gr:
            st.append(('assign', [V(v)], lit(Fraction(r.randint(-9, 40), 2))))
        for k in range(6):
            st.append(('assign', [('idx', ga, [lit(k)])], lit(r.randint(-5, 15))))
            st.append(('assign', [('idx', gx, [lit(k)])], lit(r.randint(-5, 15))))
        for _ in range(r.randint(4, 10)):
            st.append(self.stmt(sc))
        st.append(('comp', [('print', [V(v) for v in gi + [c] + gr]), ('nlcr',), ('print', [('idx', a, [lit(k)]) for a in (ga, gx) for k in range(6)])]))
        b.stmts = st
        words = [r.choice([0, (1 << 27) - 1, 1 << 26, r.getrandbits(27), r.getrandbits(27), r.getrandbits(26), r.getrandbits(9)]) for _ in range(40)]
        return b, words


def case(item):
    seed, variant = item
    g = G(seed)
    b, words = g.program()
    if len(tokens(b)) > 4000:
        return skip("large program")
    r = random.Random(seed ^ 77)
    ev = {}
    it = Interp(max_steps=120000, events=ev)
    it.console = list(words)
    try:
        out, good = it.run(b)
    except Discard as x:
        return skip(str(x))
    if ev.get('xeen') and not good:
        return skip("error stop in a program with a console")
    inp = "".join(format(w, r.choice(["b", "027b"])) + "\n" for w in words) if ev.get('xeen') else ""
    src = render(b, seed)
    libs = [os.path.join(build.REPO, "library", "x1algol.lib")] if r.random() < .3 else []
    ev["library on the command line"] = len(libs)
    res = tool(variant).a60(src, inp.encode(), libs=libs)
    if res.timeout:
        return unsure("watchdog")
    ev["programs:" + variant] = 1
    ev["error-stop" if not good else "normal-end"] = 1
    for k, v in g.ev.items():
        ev["written " + k] = ev.get("written " + k, 0) + v
    zero = lambda t: re.sub(r'-0(?![\d.])', '0', t)      # a zero may be printed with a sign
    if agree(res, out, good) or zero(res.text) == zero(out) and good and res.rc == 0 and not res.crashed():
        return ok(case_hash(src + inp), ev, nontrivial=out.count('\n') >= 2, sample={"seed": seed, "source": src[-1200:], "output": out[:200]})
    return bad(case_hash(src + inp), describe(src, out, good, res), {"program.a60": src, "input.txt": inp, "expected.txt": out, "got.txt": res.brief()}, events=ev)


# ---------------------------------------------------------------- RANDOM and SETRANDOM
def random_case(item):
    seed, variant = item
    r = random.Random(seed)

    def sd():
        k = r.random()
        if k < .4:
            return str(r.choice([0, 1, 2, 3, 17, -1, -5, MAXI, -MAXI, r.randint(-MAXI, MAXI)]))
        if k < .7:
            return "%s%d.%d" % (r.choice(["", "-"]), r.randrange(1000), r.randrange(1, 10 ** r.randrange(1, 9)))
        if k < .85:
            return "%d.5⏨%d" % (r.randrange(1, 99), r.randint(-300, 300))
        return "1/%d" % r.randrange(2, 99999)
    a = sd()
    others = []
    while len(others) < 3:
        s = sd()
        if s != a and s not in others:
            others.append(s)
    n = 300
    ways = {"loop": "{for} i := 1 {step} 1 {until} @@ {do} {begin} print(RANDOM); NLCR {end};",
            "variable": "{for} i := 1 {step} 1 {until} @@ {do} {begin} x := RANDOM; {if} x < 0 {then} PRINTTEXT(`below'); {if} x ≥ 1 {then} PRINTTEXT(`above'); print(x); NLCR {end};",
            "function": "{for} i := 1 {step} 1 {until} @@ {do} {begin} print(rf); NLCR {end};",
            "by value": "{for} i := 1 {step} 1 {until} @@ {do} pv(RANDOM);",
            "by name": "{for} i := 1 {step} 2 {until} @@ {do} pn(RANDOM);",
            "array": "{for} i := 1 {step} 1 {until} @@ {do} g[i] := RANDOM; {for} i := 1 {step} 1 {until} @@ {do} {begin} print(g[i]); NLCR {end};"}
    w = sorted(ways)
    r.shuffle(w)
    seq = [(a, w[0], n), (others[0], w[1], 30), (a, w[2], n), (others[1], w[3], 30), (others[2], w[4], 30), (a, w[5], n)]
    head = "{begin} {integer} i, j; {real} x, y; {array} g[1:%d]; {real} {procedure} rf; rf := RANDOM; {procedure} pv(u); {value} u; {real} u; {begin} print(u); NLCR {end}; " \
           "{procedure} pn(u); {real} u; {begin} print(u); NLCR; print(u); NLCR {end}; {procedure} sr(u); {real} u; SETRANDOM(u);\n" % n
    body = "".join("%s; %s print(-7); NLCR;\n" % (r.choice(["SETRANDOM(%s)", "y := %s; SETRANDOM(y)", "sr(%s)"] if not re.match(r"-?\d+$", s) else ["SETRANDOM(%s)", "sr(%s)"]) % s, ways[k].replace("@@", str(m)) + " ")
                   for s, k, m in seq)
    body += "SETRANDOM(%s); print(SUM(j, 1, 60, RANDOM)); NLCR; SETRANDOM(TIMEOFDAY); print(RANDOM)" % a
    src = U(head + body + " {end}\n")
    key = case_hash(src)
    t = tool(variant)
    res = t.a60(src)
    if res.timeout:
        return unsure("watchdog")

    def no(msg):
        return bad(key, msg, {"program.a60": src, "got.txt": res.brief()})
    if res.rc != 0 or res.crashed():
        return no("the program with RANDOM ended with %s" % res.brief()[-300:])
    parts = [p.split("\n")[:-1] for p in res.text.split("-7\n")]
    if len(parts) != 7 or [len(p) for p in parts[:6]] != [m for _, _, m in seq]:
        return no("unexpected output: %r numbers" % [len(p) for p in parts])
    ev = {"random numbers": sum(map(len, parts[:6])), "programs:" + variant: 1}
    vals = []
    for (s, k, m), p in zip(seq, parts):
        v = []
        for x in p:
            if not re.match(r"\d*\.?\d+([⏨e]-?\d+)?$", x):
                return no("RANDOM is no number in [0, 1): %r (as %s after SETRANDOM(%s))" % (x, k, s))
            f = float(x.replace("⏨", "e"))
            if not 0 <= f < 1:
                return no("RANDOM is %s, not in [0, 1) (as %s after SETRANDOM(%s))" % (x, k, s))
            v.append(f)
        vals.append(v)
    v = vals[0]
    if len(set(v)) < n * .95:
        return no("only %d different values in %d calls of RANDOM" % (len(set(v)), n))
    q = [sum(1 for x in v if x * 4 // 1 == i) for i in range(4)]
    if min(q) < n // 10:
        return no("RANDOM does not cover [0, 1): %r values in the quarters" % q)
    for i in (2, 5):
        if parts[i] != parts[0]:
            j = [x == y for x, y in zip(parts[i], parts[0])].index(False)
            return no("SETRANDOM(%s) twice gives different sequences: number %d is %s, then %s (%s, %s)" % (a, j + 1, parts[0][j], parts[i][j], seq[0][1], seq[i][1]))
    if sum(1 for i in (1, 3, 4) if parts[i] != parts[0][:30]) == 0:
        return no("RANDOM does not depend on the seed: %s and %s give one sequence" % (a, others))
    if abs(float(parts[6][0].replace("⏨", "e")) - sum(v[:60])) > 1e-6:
        return no("SUM(j, 1, 60, RANDOM) is %s, the numbers make %r" % (parts[6][0], sum(v[:60])))
    src2 = U("{begin} {integer} i; {real} x; SETRANDOM(%s); {for} i := 1 {step} 1 {until} %d {do} {begin} x := RANDOM; print(x); NLCR {end} {end}\n" % (a, n))
    r2 = t.a60(src2)
    if r2.rc != 0 or r2.text.split("\n")[:-1] != parts[0]:
        return bad(key, "SETRANDOM(%s) in another program gives another sequence" % a, {"program.a60": src, "other.a60": src2, "got.txt": res.brief(), "got-other.txt": r2.brief()})
    ev["random sequences compared"] = 4
    return ok(key, ev, nontrivial=True, sample={"seed": seed, "seeds": [a] + others, "first": parts[0][:3]})


# ---------------------------------------------------------------- TIMEOFDAY
def time_case(item):
    seed, variant = item
    r = random.Random(seed)
    off = r.choice([0, 0, r.randint(-12 * 60, 14 * 60) * 60])
    h, m = divmod(abs(off) // 60, 60)
    env = {"TZ": "VVV%s%d:%02d" % ("-" if off > 0 else "", h, m)}       # POSIX: west is positive
    ways = ["print(TIMEOFDAY)", "x := TIMEOFDAY; print(x)", "print(tf)", "pv(TIMEOFDAY)", "pn(TIMEOFDAY)", "x := 0; print(TIMEOFDAY + x)", "g[3] := TIMEOFDAY; print(g[3])",
            "print({if} TIMEOFDAY < 0 {then} -1 {else} TIMEOFDAY)", "print(abs(TIMEOFDAY))", "print(SUM(i, 1, 1, TIMEOFDAY))", "pd(TIMEOFDAY, 3)"]
    k = [r.choice(ways) for _ in range(r.randint(3, 12))]
    src = U("{begin} {integer} i; {real} x; {array} g[1:5]; {real} {procedure} tf; tf := TIMEOFDAY; {procedure} pv(u); {value} u; {real} u; print(u); "
            "{procedure} pn(u); {real} u; {begin} x := u; print(u) {end}; {procedure} pd(u, n); {value} n; {integer} n; {real} u; {if} n > 0 {then} pd(u, n - 1) {else} print(u);\n"
            + ";\n".join(w + "; NLCR" for w in k) + " {end}\n")
    t0 = time.time()
    res = tool(variant).a60(src, env=env)
    t1 = time.time()
    if res.timeout:
        return unsure("watchdog")
    key = case_hash(src + env["TZ"])

    def no(msg):
        return bad(key, msg + " (TZ=%s)" % env["TZ"], {"program.a60": src, "got.txt": res.brief(), "clock.txt": "%r %r offset %d\n" % (t0, t1, off)})
    lines = res.text.split("\n")[:-1]
    if res.rc != 0 or res.crashed() or len(lines) != len(k):
        return no("the program with TIMEOFDAY ended with %s" % res.brief()[-300:])
    last = None
    for w, x in zip(k, lines):
        try:
            v = float(x.replace("⏨", "e"))
        except ValueError:
            return no("TIMEOFDAY gives %r" % x)
        if not 0 <= v < 86400.01:
            return no("TIMEOFDAY is %r, not a time of day (%s)" % (x, w))
        lo, hi = (t0 + off) % 86400 - .05, (t1 + off) % 86400 + .05
        if lo > hi:
            good = v >= lo or v <= hi
        else:
            good = lo <= v <= hi
        if not good:
            return no("TIMEOFDAY is %r (%s), the clock says %r to %r" % (x, w, lo + .05, hi - .05))
        if last is not None and v < last - .001 and last - v < 80000:
            return no("TIMEOFDAY goes back from %r to %r (%s)" % (last, v, w))
        last = v
    return ok(key, {"times compared with the clock": len(lines), "time zone": off != 0, "programs:" + variant: 1}, nontrivial=True, sample={"seed": seed, "TZ": env["TZ"], "first": lines[0]})
