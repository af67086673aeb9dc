"""Expressions and assignments over operands with awkward values: every kind of operand access, mixed types, close values, limits."""
import os
import random
from fractions import Fraction

from . import num as N
from .core import ok, bad, skip, unsure, case_hash
from .diff import wrap, agree, describe, render, shrink
from .harness import tool
from .lang import D, Block, Interp, Discard, Fr, Cell, Arr, Thunk, Closure
from .num import R, X1Error
from .numtest import text_of

MAXI = N.MAXINT
V = lambda d: ('var', d)


def lit(v):
    if N.is_int(v):
        return ('neg', ('num', -v, str(-v))) if v < 0 else ('num', v, str(v))
    a = N.abs_(v)
    t = text_of(a)
    t = t.replace('e', '⏨') if v.m else '0.0'
    return ('neg', ('num', a, t)) if v.m < 0 else ('num', a, t)


class G:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.ev = {}

    # ---- values: clusters of close numbers
    def ival(self):
        r = self.r
        k = r.random()
        if k < .35:
            v = self.center + r.choice([0, 0, 1, -1, 2])
        elif k < .45:
            v = -self.center
        elif k < .55:
            v = MAXI - r.randrange(3)
        elif k < .8:
            v = r.randrange(-12, 13)
        else:
            v = r.randrange(1 << r.randrange(1, 27))
        v = max(-MAXI, min(MAXI, v))
        return -v if r.random() < .1 else v

    def rval(self):
        r = self.r
        k = r.random()
        c = self.center
        if k < .3:
            f = Fraction(c) + r.choice([Fraction(1, 2), Fraction(-1, 2), Fraction(1, 4), Fraction(0), Fraction(1), Fraction(1, 1 << r.randrange(1, 20))])
        elif k < .4:
            f = Fraction(c) * (1 + Fraction(r.choice([1, -1, 2]), 1 << r.choice([39, 38, 30, 25, 24, 23])))
        elif k < .55:
            f = Fraction(r.randrange(1, 200), r.choice([2, 4, 8, 3, 10, 7]))
        elif k < .65:
            f = Fraction(r.choice([MAXI, MAXI + 1, MAXI - 1, 1 << 26])) + Fraction(r.randrange(-3, 4), 4)
        elif k < .75:
            f = Fraction(r.randrange(1, 1 << 40)) * Fraction(2) ** r.randrange(-80, 30)
        elif k < .8:
            f = Fraction(10) ** r.randrange(-600, 600)
        else:
            f = Fraction(r.randrange(-20, 20))
        if r.random() < .3:
            f = -f
        v = N.from_frac(abs(f))
        return N.neg(v) if f < 0 else v

    def build(self):
        r = self.r
        self.center = r.choice([r.randrange(1, 40), r.randrange(1, 1 << 26), (1 << 24) + r.randrange(-2, 3), (1 << 25) + r.randrange(9), 50000000])
        vi = [D('var', n, 'i') for n in ('i', 'j', 'k')]
        vr = [D('var', n, 'r') for n in ('x', 'y', 'z')]
        vb = [D('var', n, 'b') for n in ('p', 'q')]
        bi = [(('num', 0, '0'), ('num', 2, '2'))]
        ai = D('arr', 'ai', 'i', bounds=bi, ndim=1, size=[(0, 2)])
        ar = D('arr', 'ar', 'r', bounds=[(('neg', ('num', 1, '1')), ('num', 1, '1'))], ndim=1, size=[(-1, 1)])
        prm = [D('var', 'vi', 'i', mode='value'), D('var', 'vr', 'r', mode='value'), D('var', 'vb', 'b', mode='value'),
               D('var', 'ni', 'i', mode='name'), D('var', 'nr', 'r', mode='name'), D('var', 'nb', 'b', mode='name'),
               D('var', 'mi', 'i', mode='name'), D('var', 'mr', 'r', mode='name')]
        h = D('proc', 'test', None, params=prm)
        fi = D('proc', 'fi', 'i', params=[D('var', 'a', 'i', mode='value')])
        fi.body = ('assign', [('fres', fi)], V(fi.params[0]))
        fr_ = D('proc', 'fr', 'r', params=[D('var', 'a', 'r', mode='name')])
        fr_.body = ('assign', [('fres', fr_)], V(fr_.params[0]))
        li = [D('var', 'li', 'i'), D('var', 'lj', 'i')]
        lr = [D('var', 'lr', 'r'), D('var', 'ls', 'r')]
        lb = [D('var', 'lb', 'b')]
        b = Block()
        b.decls = vi + vr + vb + [ai, ar, fi, fr_, h]
        init = [('assign', [V(d)], lit(self.ival())) for d in vi] + [('assign', [V(d)], lit(self.rval())) for d in vr] + \
            [('assign', [V(d)], ('bool', r.random() < .5)) for d in vb]
        init += [('assign', [('idx', ai, [lit(k)])], lit(self.ival())) for k in range(3)]
        init += [('assign', [('idx', ar, [lit(k)])], lit(self.rval())) for k in range(-1, 2)]
        body = Block()
        body.decls = li + lr + lb
        st = [('assign', [V(d)], lit(self.ival())) for d in li] + [('assign', [V(d)], lit(self.rval())) for d in lr] + \
            [('assign', [V(d)], ('bool', r.random() < .5)) for d in lb]
        self.I = vi + li + [prm[0], prm[3], prm[6]]
        self.RR = vr + lr + [prm[1], prm[4], prm[7]]
        self.B = vb + lb + [prm[2], prm[5]]
        self.WI, self.WR, self.WB = vi + li + [prm[0], prm[6]], vr + lr + [prm[1], prm[7]], vb + lb + [prm[2]]
        self.ai, self.ar, self.fi, self.fr = ai, ar, fi, fr_
        # environment for trying statements
        it = Interp(max_steps=10 ** 7, events={})
        F = Fr(None)
        for d in vi + vr + vb:
            F.vars[d] = Cell(d.typ)
        F.vars[ai] = Arr('i', [(0, 2)])
        F.vars[ar] = Arr('r', [(-1, 1)])
        F.vars[fi], F.vars[fr_], F.vars[h] = Closure(fi, F), Closure(fr_, F), Closure(h, F)
        for s in init:
            it.stmt(s, F)
        save, save2 = (self.I, self.RR, self.B), (self.WI, self.WR, self.WB)
        self.I, self.RR, self.B = vi, vr, vb
        self.it = it
        args = [self.good(F, self.ei), self.good(F, self.er), self.good(F, self.eb), self.good(F, self.ei), self.good(F, self.er),
                self.good(F, self.eb), r.choice([V(r.choice(vi)), ('idx', ai, [V(vi[0]) if False else lit(r.randrange(3))])]),
                r.choice([V(r.choice(vr)), ('idx', ar, [lit(r.randrange(-1, 2))])])]
        (self.I, self.RR, self.B), (self.WI, self.WR, self.WB) = save, save2
        P = Fr(F)
        for p, a in zip(prm, args):
            if p.mode == 'value':
                P.vars[p] = Cell(p.typ)
                P.vars[p].set(it.ev(a, F))
            else:
                P.vars[p] = Thunk(a, F)
        L = Fr(P)
        for d in body.decls:
            L.vars[d] = Cell(d.typ)
        for s in st:
            it.stmt(s, L)
        cells = [c for f in (F, P, L) for c in f.vars.values() if type(c) is Cell]
        arrs = [F.vars[ai], F.vars[ar]]
        n = r.randrange(20, 40)
        stop = r.random() < .25
        tries = 0
        while len(st) < n and tries < 400:
            tries += 1
            s = self.stmt()
            snap = [c.v for c in cells], [list(a.data) for a in arrs], len(it.out)
            try:
                it.stmt(s, L)
            except (X1Error, Discard) as x:
                for c, v in zip(cells, snap[0]):
                    c.v = v
                for a, v in zip(arrs, snap[1]):
                    a.data[:] = v
                del it.out[snap[2]:]
                if stop and type(x) is X1Error and len(st) > 15:
                    st.append(s)
                    break
                continue
            st.append(s)
        body.stmts = st
        h.body = ('block', body)
        b.stmts = init + [('pcall', h, args)]
        for d in vi + vr:
            b.stmts += [('print', [V(d)]), ('nlcr',)]
        for d in vb:
            b.stmts += [('print', [('if', V(d), lit(1), lit(2))]), ('nlcr',)]
        for k in range(3):
            b.stmts += [('print', [('idx', ai, [lit(k)]), ('idx', ar, [lit(k - 1)])]), ('nlcr',)]
        return b

    def good(self, F, f):
        for _ in range(200):
            e = f(self.r.randrange(3))
            try:
                v = self.it.ev(e, F)
                if f != self.ei or N.is_int(v):
                    return e
            except (X1Error, Discard):
                pass
        return lit(1) if f != self.eb else ('bool', True)

    def cnt(self, k):
        self.ev[k] = self.ev.get(k, 0) + 1

    def stmt(self):
        r = self.r
        d = r.randrange(1, 5)
        k = r.random()
        if k < .2:
            return ('comp', [('print', [self.ei(d)]), ('nlcr',)])
        if k < .4:
            return ('comp', [('print', [self.er(d)]), ('nlcr',)])
        if k < .62:
            return ('comp', [('if', self.eb(d), ('print', [lit(1)]), ('print', [lit(2)])), ('nlcr',)])
        self.cnt('assignment')
        if k < .74:
            t = [self.target('i') for _ in range(r.choice([1, 1, 1, 2, 3]))]
            return ('comp', [('assign', t, self.ei(d) if r.random() < .5 else self.er(d - 1)), ('print', [self.plain(x) for x in t]), ('nlcr',)])
        if k < .86:
            t = [self.target('r') for _ in range(r.choice([1, 1, 1, 2, 3]))]
            return ('comp', [('assign', t, self.er(d) if r.random() < .6 else self.ei(d)), ('print', [self.plain(x) for x in t]), ('nlcr',)])
        t = [V(r.choice(self.WB)) for _ in range(r.choice([1, 1, 2]))]
        return ('assign', t, self.eb(d))

    def plain(self, t):
        return t

    def target(self, typ):
        r = self.r
        if r.random() < .25:
            return self.elem(typ)
        return V(r.choice(self.WI if typ == 'i' else self.WR))

    def elem(self, typ):
        r = self.r
        if typ == 'i':
            return ('idx', self.ai, [self.sub(r.randrange(3))])
        return ('idx', self.ar, [self.sub(r.randrange(-1, 2))])

    def sub(self, v):
        r = self.r
        k = r.random()
        if k < .6:
            return lit(v)
        if k < .7:
            return lit(N.from_frac(Fraction(v) + r.choice([Fraction(1, 4), Fraction(1, 8), Fraction(3, 8)]))) if v >= 0 else lit(v)
        if k < .8:
            x = r.choice(self.I)
            return ('bin', '+', lit(v), ('par', ('bin', '-', V(x), V(x)))) if r.random() < .5 else ('bin', '-', ('par', ('bin', '+', lit(v), lit(1))), lit(1))
        if k < .9:
            return ('if', self.eb(1), lit(v), lit(v))
        return ('call', self.fi, [lit(v)])

    def leaf_i(self):
        r = self.r
        k = r.random()
        if k < .6:
            return V(r.choice(self.I))
        if k < .75:
            return lit(self.ival())
        if k < .9:
            return self.elem('i')
        return ('call', self.fi, [V(r.choice(self.I))])

    def leaf_r(self):
        r = self.r
        k = r.random()
        if k < .6:
            return V(r.choice(self.RR))
        if k < .75:
            return lit(self.rval())
        if k < .9:
            return self.elem('r')
        return ('call', self.fr, [V(r.choice(self.RR + self.I))])

    def ei(self, d):
        r = self.r
        if d <= 0:
            return self.leaf_i()
        k = r.random()
        if k < .4:
            return ('bin', r.choice('+-+-×'), self.ei(d - 1), self.ei(d - 1 - r.randrange(2)))
        if k < .55:
            return ('bin', r.choice('÷÷↑'), ('par', self.ei(d - 1)), self.leaf_i() if r.random() < .4 else ('num', *[(x, str(x)) for x in [r.randrange(1, 9)]][0]))
        if k < .65:
            return ('neg', self.ei(d - 1))
        if k < .75:
            return ('if', self.eb(d - 1), self.ei(d - 1), self.ei(d - 1))
        if k < .85:
            return ('std', r.choice(['sign', 'entier']), self.er(d - 1))
        if k < .9:
            return ('std', 'abs', self.ei(d - 1))
        return self.leaf_i()

    def er(self, d):
        r = self.r
        if d <= 0:
            return self.leaf_r()
        k = r.random()
        if k < .55:
            a = self.er(d - 1)
            b = (self.er if r.random() < .5 else self.ei)(d - 1 - r.randrange(2))
            if r.random() < .4:
                a, b = b, a
            return ('bin', r.choice('+-×/'), a, b)
        if k < .65:
            return ('bin', '/', self.ei(d - 1), self.ei(d - 1))
        if k < .75:
            return ('if', self.eb(d - 1), self.er(d - 1), self.er(d - 1))
        if k < .82:
            return ('neg', self.er(d - 1))
        if k < .9:
            return ('std', 'abs', self.er(d - 1))
        return self.leaf_r()

    def num(self, d):
        return self.ei(d) if self.r.random() < .5 else self.er(d)

    def eb(self, d):
        r = self.r
        if d <= 0:
            k = r.random()
            if k < .4:
                return V(r.choice(self.B))
            if k < .5:
                return ('bool', r.random() < .5)
            self.cnt('relation of leaves')
            a, b = (self.leaf_i if r.random() < .5 else self.leaf_r)(), (self.leaf_i if r.random() < .5 else self.leaf_r)()
            return ('rel', r.choice('<≤=≥>≠'), a, b)
        k = r.random()
        if k < .5:
            self.cnt('relation')
            return ('rel', r.choice('<≤=≥>≠'), self.num(d - 1), self.num(d - 1 - r.randrange(2)))
        if k < .75:
            return ('bop', r.choice('∧∨⊃≡'), self.eb(d - 1), self.eb(d - 1))
        if k < .87:
            return ('not', self.eb(d - 1))
        if k < .95:
            return ('if', self.eb(d - 1), self.eb(d - 1), self.eb(d - 1))
        return self.eb(0)


def judge_block(block, seed, variant, ev, what=None):
    """Run the block through the reference and through compiler and simulator."""
    it = Interp(max_steps=200000, events=ev)
    try:
        out, good = it.run(block)
    except Discard as x:
        return skip(str(x))
    block = wrap(block, seed, ev=ev)
    src = render(block, seed)
    r = tool(variant).a60(src)
    if r.timeout:
        return unsure("watchdog")
    ev["error-stop" if not good else "normal-end"] = 1
    ev["programs:" + variant] = 1
    if agree(r, out, good):
        return ok(case_hash(src), ev, nontrivial=out.count('\n') >= 2, sample={"seed": seed, "source": src[-1200:], "output": out[:200]})
    msg = describe(src, out, good, r)
    small = src
    if not r.hang and not os.environ.get('X1V_NOSHRINK'):
        b2 = shrink(block, seed, variant, 900)
        small = render(b2, seed)
        try:
            o2, g2 = Interp(max_steps=200000).run(b2)
            msg += "\nreduced program:\n%s\nreduced expected (exit %d):\n%s\nreduced got:\n%s" % (small, 0 if g2 else 1, o2, tool(variant).a60(small).brief())
        except Exception:
            pass
    return bad(case_hash(src), msg, {"program.a60": src, "reduced.a60": small, "expected.txt": out, "got.txt": r.brief()}, events=ev)


def case(item):
    seed, variant = item
    g = G(seed)
    b = g.build()
    return judge_block(b, seed, variant, dict(g.ev))
