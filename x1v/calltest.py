"""Call shapes: procedures with few and many parameters of every kind, passed on through chains of nested and recursive procedures."""
import random

from . import num as N
from .exprtest import judge_block, lit, V
from .core import skip
from .lang import D, Block, tokens
from fractions import Fraction

SHOW = {'i': lambda e: e, 'r': lambda e: e, 'b': lambda e: ('if', e, lit(1), lit(2))}


class G:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.n = 0
        self.ev = {}
        self.mark = 100
        self.calls = 0

    def cnt(self, k):
        self.ev[k] = self.ev.get(k, 0) + 1

    def name(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    # ---------------------------------------------------------- heads
    def kind(self):
        return self.r.choices(['vi', 'vr', 'vb', 'ni', 'nr', 'nb', 'wi', 'wr', 'arr', 'varr', 'fun', 'proc', 'pfun', 'label', 'switch', 'string', 'stdf', 'stdp', 'wb'],
                              [8, 5, 3, 6, 5, 3, 8, 5, 3, 3, 4, 3, 2, 3, 2, 3, 2, 2, 3])[0]

    def head(self):
        r = self.r
        h = D('proc', self.name('p'), r.choice([None, None, 'i', 'r', 'b']))
        n = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6]) if r.random() < .8 else r.choice([8, 11, 13, 14, 15, 16, 17, 20, 26, 31, 32, 33, 40])
        ps = []
        for _ in range(n):
            k = self.kind()
            nm = self.name('f')
            if k[0] in 'vnw' and k not in ('varr',):
                p = D('var', nm, k[1], mode='value' if k[0] == 'v' else 'name')
                p.assigned = k[0] == 'w'
            elif k == 'arr':
                p = D('arr', nm, r.choice('ir'), mode='name', ndim=1)
            elif k == 'varr':
                p = D('arr', nm, r.choice('ir'), mode='value', ndim=1)
            elif k == 'fun':
                p = D('proc', nm, 'i', mode='name', params=[D('var', 'x', 'i', mode='value')])
            elif k == 'proc':
                p = D('proc', nm, None, mode='name', params=[D('var', 'x', 'i', mode='name')])
            elif k == 'pfun':
                p = D('proc', nm, 'i', mode='name', params=[])
            elif k == 'stdf':
                p = D('proc', nm, 'r', mode='name', params=[D('var', 'x', 'r', mode='value')])
            elif k == 'stdp':
                p = D('proc', nm, None, mode='name', params=[D('var', 'x', 'i', mode='value')] if r.random() < .6 else [])
            elif k == 'label':
                p = D('label', nm, mode='name')
            elif k == 'switch':
                p = D('switch', nm, mode='name')
            else:
                p = D('string', nm, mode='name')
            p.spec = k
            ps.append(p)
        if r.random() < .4:
            p = D('var', self.name('d'), 'i', mode='value')
            p.spec = 'depth'
            ps.insert(r.randrange(len(ps) + 1), p)
            h.depth = 1
        h.params = ps
        return h

    # ---------------------------------------------------------- scopes
    # sc: list of declarations visible, innermost last; every name is unique
    def pick(self, sc, pred):
        l = [d for d in sc if pred(d)]
        if not l:
            return None
        # prefer the innermost ones
        return self.r.choice(l[-6:]) if self.r.random() < .6 else self.r.choice(l)

    def readable(self, typ):
        return lambda d: d.kind == 'var' and d.typ == typ and d.spec != 'depth'

    def expr(self, sc, typ, d=2):
        r = self.r
        k = r.random()
        if d <= 0 or k < .35:
            v = self.pick(sc, self.readable(typ))
            if v is not None and r.random() < .75:
                return V(v)
            if typ == 'i':
                return lit(r.randrange(-9, 60))
            if typ == 'r':
                return lit(N.from_frac(Fraction(r.randrange(1, 200), 8)))
            return ('bool', r.random() < .5)
        if typ == 'b':
            if k < .7:
                return ('rel', r.choice('<≤=≥>≠'), self.expr(sc, 'i', d - 1), self.expr(sc, r.choice('ir'), d - 1))
            return ('bop', r.choice('∧∨⊃≡'), self.expr(sc, 'b', d - 1), self.expr(sc, 'b', d - 1)) if r.random() < .6 else ('not', self.expr(sc, 'b', d - 1))
        if k < .6:
            return ('bin', r.choice('+-'), self.expr(sc, typ, d - 1), self.expr(sc, 'i' if typ == 'i' else r.choice('ir'), d - 1))
        if k < .68:
            return ('if', self.expr(sc, 'b', d - 1), self.expr(sc, typ, d - 1), self.expr(sc, typ, d - 1))
        if k < .8:
            e = self.elem(sc, typ, d)
            if e:
                return e
        if k < .9 and typ == 'i':
            f = self.pick(sc, lambda q: q.kind == 'proc' and q.spec in ('fun', 'hfun'))
            if f is not None:
                return ('call', f, [self.expr(sc, 'i', d - 1)])
            f = self.pick(sc, lambda q: q.kind == 'proc' and q.spec in ('pfun', 'hpfun'))
            if f is not None:
                return ('call', f, [])
        if typ == 'r' and k < .9:
            f = self.pick(sc, lambda q: q.kind == 'proc' and q.spec == 'stdf')
            if f is not None:
                return ('call', f, [('std', 'abs', self.expr(sc, 'r', d - 1))])
        return self.expr(sc, typ, d - 1)

    def elem(self, sc, typ, d=1):
        a = self.pick(sc, lambda q: q.kind == 'arr' and q.typ == typ)
        if a is None:
            return None
        self.cnt('element')
        r = self.r
        k = r.random()
        if k < .6:
            return ('idx', a, [lit(r.randint(0, 3))])
        v = self.pick(sc, self.readable('i'))
        if v is None or d <= 0:
            return ('idx', a, [lit(r.randint(0, 3))])
        # v reduced modulo 4 (the quotient is truncated, so sign matters)
        m = ('bin', '-', V(v), ('bin', '×', ('par', ('bin', '÷', V(v), lit(4))), lit(4)))
        return ('idx', a, [('std', 'abs', m)])

    def target(self, sc, typ):
        r = self.r
        if r.random() < .3:
            e = self.elem(sc, typ)
            if e:
                return e
        v = self.pick(sc, lambda d: d.kind == 'var' and d.typ == typ and d.spec != 'depth' and (d.mode != 'name' or d.assigned))
        return None if v is None else V(v)

    def actual(self, sc, p, labels, guard, swit):
        r = self.r
        k = p.spec
        self.cnt("actual for " + k)
        if k == 'depth':
            return ('bin', '-', V(guard), lit(1)) if guard is not None and r.random() < .9 else lit(r.randrange(0, 3) if guard is None else 0)
        if k in ('vi', 'vr'):
            return self.expr(sc, r.choice('iir' if k == 'vi' else 'rri'))
        if k in ('vb', 'nb'):
            return self.expr(sc, 'b')
        if k in ('ni', 'nr'):
            return self.expr(sc, k[1])
        if k in ('wi', 'wr', 'wb'):
            return self.target(sc, k[1])
        if k == 'arr':
            a = self.pick(sc, lambda d: d.kind == 'arr' and d.typ == p.typ)
            return a and ('arrp', a)
        if k == 'varr':
            a = self.pick(sc, lambda d: d.kind == 'arr' and d.spec != 'conv' and (d.typ == p.typ or d.mode != 'value'))
            return a and ('arrp', a)
        if k == 'fun':
            f = self.pick(sc, lambda d: d.kind == 'proc' and d.spec in ('fun', 'hfun'))
            return f and ('proc', f)
        if k == 'proc':
            f = self.pick(sc, lambda d: d.kind == 'proc' and d.spec in ('proc', 'hproc'))
            return f and ('proc', f)
        if k == 'pfun':
            f = self.pick(sc, lambda d: d.kind == 'proc' and d.spec in ('pfun', 'hpfun'))
            return f and ('proc', f)
        if k == 'stdf':
            f = self.pick(sc, lambda d: d.kind == 'proc' and d.spec == 'stdf')
            if f is not None and r.random() < .5:
                return ('proc', f)
            return ('stdf', r.choice(['abs', 'sign', 'entier', 'sqrt', 'abs']))
        if k == 'stdp':
            f = self.pick(sc, lambda d: d.kind == 'proc' and d.spec == 'stdp' and len(d.params) == len(p.params))
            if f is not None and r.random() < .5:
                return ('proc', f)
            return ('stdf', r.choice(['SPACE', 'print'] if p.params else ['NLCR', 'TAB']))
        if k == 'label':
            f = self.pick(sc, lambda d: d.kind == 'label')
            if labels and (f is None or r.random() < .6):
                return ('label', r.choice(labels))
            return f and ('label', f)
        if k == 'switch':
            f = self.pick(sc, lambda d: d.kind == 'switch' and d.mode == 'name')
            if swit and (f is None or r.random() < .6):
                return ('switch', r.choice(swit))
            return f and ('switch', f)
        f = self.pick(sc, lambda d: d.kind == 'string')
        if f is not None and r.random() < .5:
            return ('strf', f)
        return ('str', ''.join(r.choice('abcxyz0129 +-()[],=') for _ in range(r.randrange(12))))

    # ---------------------------------------------------------- statements
    def show(self, e, typ):
        return ('comp', [('print', [SHOW[typ](e)]), ('nlcr',)])

    def use(self, p, sc):
        """A statement that makes the value of a parameter visible, or changes it."""
        r = self.r
        k = p.spec
        if p.kind == 'var':
            if p.assigned or p.mode == 'value':
                if k != 'depth' and r.random() < .6:
                    return [('assign', [V(p)], self.expr(sc, p.typ)), self.show(V(p), p.typ)]
            return [self.show(V(p), p.typ)]
        if p.kind == 'arr':
            e = ('idx', p, [lit(r.randrange(4))])
            if r.random() < .5:
                return [('assign', [e], self.expr(sc, p.typ)), self.show(('idx', p, [lit(r.randrange(4))]), p.typ)]
            return [self.show(e, p.typ)]
        if k == 'fun':
            return [self.show(('call', p, [self.expr(sc, 'i', 1)]), 'i')]
        if k == 'pfun':
            return [self.show(('call', p, []), 'i')]
        if k == 'stdf':
            return [self.show(('call', p, [('std', 'abs', self.expr(sc, r.choice('ir'), 1))]), 'r')]
        if k == 'stdp':
            return [('pcall', p, [lit(r.randrange(5))] if p.params else []), ('print', [lit(self.nextmark())]), ('nlcr',)]
        if k == 'proc':
            t = self.target(sc, 'i')
            return [('pcall', p, [t])] if t else []
        if k == 'string':
            return [('text', ('strf', p)), ('nlcr',)]
        return []

    def nextmark(self):
        self.mark += 1
        return self.mark

    def call(self, h, sc, labels, guard, swit):
        args = []
        for p in h.params:
            a = self.actual(sc, p, labels, guard, swit)
            if a is None:
                return None
            args.append(a)
        self.calls += 1
        self.cnt("call with %s parameters" % ("0" if not args else "1-5" if len(args) < 6 else "6-13" if len(args) < 14 else "over 13"))
        return args

    def body(self, h, sc, callees, depth):
        """sc: scope outside; callees: procedures that may be called without a depth guard."""
        r = self.r
        b = Block()
        sc = sc + list(h.params)
        loc = []
        st = []
        for _ in range(r.randrange(0, 3)):
            typ = r.choice('iirb')
            d = D('var', self.name('v'), typ)
            b.decls.append(d)
            loc.append(d)
            st.append(('assign', [V(d)], self.expr([], typ, 0)))
        if r.random() < .2:
            d = D('arr', self.name('a'), r.choice('ir'), bounds=[(lit(0), lit(3))], ndim=1)
            b.decls.append(d)
            loc.append(d)
            for k in range(4):
                st.append(('assign', [('idx', d, [lit(k)])], lit(self.nextmark())))
        sc = sc + loc
        labels = [D('label', self.name('l')) for _ in range(r.choice([0, 0, 1, 2]))]
        b.labels = labels
        swit = []
        if labels and r.random() < .5:
            s = D('switch', self.name('s'), elems=[('label', r.choice(labels)) for _ in range(r.randrange(1, 4))])
            s.size = 3
            while len(s.elems) < 3:
                s.elems.append(('label', r.choice(labels)))
            b.decls.append(s)
            swit = [s]
        # local helper procedures with access to this activation
        if r.random() < .35:
            f = D('proc', self.name('h'), 'i', params=[D('var', self.name('x'), 'i', mode='value')])
            f.spec = 'hfun'
            t = self.target(sc, 'i')
            f.body = ('comp', ([('assign', [t], ('bin', '+', t, lit(1)))] if t and t[0] == 'var' and r.random() < .5 else []) +
                      [('assign', [('fres', f)], ('bin', '+', V(f.params[0]), self.expr([q for q in sc if q.kind == 'var'], 'i', 1)))])
            b.decls.append(f)
            sc = sc + [f]
        if r.random() < .25:
            f = D('proc', self.name('h'), None, params=[D('var', self.name('x'), 'i', mode='name', assigned=True)])
            f.spec = 'hproc'
            f.body = ('comp', [('assign', [V(f.params[0])], ('bin', '+', V(f.params[0]), self.expr([q for q in sc if q.kind == 'var'], 'i', 1))),
                               self.show(V(f.params[0]), 'i')])
            b.decls.append(f)
            sc = sc + [f]
        if r.random() < .25:
            f = D('proc', self.name('h'), 'i', params=[])
            f.spec = 'hpfun'
            f.body = ('assign', [('fres', f)], self.expr([q for q in sc if q.kind == 'var'], 'i', 2))
            b.decls.append(f)
            sc = sc + [f]
        # nested procedures
        inner = []
        if depth > 0 and r.random() < .35:
            for _ in range(r.choice([1, 1, 2])):
                inner.append(self.head())
            for i, q in enumerate(inner):
                self.body(q, sc, inner[i + 1:] + callees, depth - 1)
                b.decls.append(q)
        guard = next((p for p in h.params if p.spec == 'depth'), None)
        ps = list(h.params)
        r.shuffle(ps)
        for p in ps:
            if r.random() < .8:
                st += self.use(p, sc)
        st += self.calls_(inner + callees, sc, labels, None, swit, r.choice([0, 1, 1, 2]) if callees or inner else 0)
        if guard is not None:
            rec = self.calls_([h] * 3 + inner + callees, sc, labels, guard, swit, r.choice([1, 1, 2]))
            if rec:
                st.append(('if', ('rel', '>', V(guard), lit(0)), ('comp', rec), None))
        r.shuffle(ps)
        for p in ps:
            if r.random() < .3:
                st += self.use(p, sc)
        j = []
        for p in ps:
            if p.kind == 'label' and r.random() < .3:
                j.append(('if', self.expr(sc, 'b', 1), ('goto', ('label', p)), None))
            elif p.kind == 'switch' and r.random() < .3:
                j.append(('if', self.expr(sc, 'b', 1), ('goto', ('sw', p, lit(r.randint(1, 3)))), None))
        if h.typ:
            res = ('assign', [('fres', h)], self.expr(sc, h.typ))
            if r.random() < .5:
                st.append(res)
            else:
                st.insert(0, res) if not loc else st.append(res)
        st += j
        for l in labels:
            st.append(('lbl', l, ('comp', [('print', [lit(self.nextmark())]), ('nlcr',)])))
        for p in ps:
            if p.kind == 'var' and p.mode == 'value' and r.random() < .3:
                st.append(self.show(V(p), p.typ))
        if h.typ and r.random() < .3:
            st.append(('assign', [('fres', h)], self.expr(sc, h.typ)))
        if not st:
            st = [('dummy',)]
        b.stmts = st
        if not b.decls and not b.labels:
            h.body = ('comp', st)
        else:
            h.body = ('block', b)

    def calls_(self, callees, sc, labels, guard, swit, n):
        r = self.r
        out = []
        for _ in range(n):
            if not callees:
                break
            h = r.choice(callees)
            a = self.call(h, sc, labels, guard, swit)
            if a is None:
                continue
            if h.typ:
                e = ('call', h, a)
                t = self.target(sc, h.typ)
                if t and t[0] == 'var' and r.random() < .4:
                    out += [('assign', [t], e), self.show(t, h.typ)]
                elif h.typ == 'b':
                    out.append(self.show(e, 'b'))
                else:
                    out.append(self.show(('bin', r.choice('+-'), self.expr(sc, 'i', 1), e) if r.random() < .5 else e, h.typ))
            else:
                out.append(('pcall', h, a))
        return out

    def program(self):
        r = self.r
        b = Block()
        gi = [D('var', self.name('i'), 'i') for _ in range(3)]
        gr = [D('var', self.name('x'), 'r') for _ in range(2)]
        gb = [D('var', self.name('b'), 'b') for _ in range(2)]
        bd = [(lit(0), lit(3))]
        ga = D('arr', 'ga', 'i', bounds=bd, ndim=1)
        gx = D('arr', 'gx', 'r', bounds=[(lit(0), lit(3))], ndim=1)
        f = D('proc', self.name('h'), 'i', params=[D('var', 'q1', 'i', mode='value')])
        f.spec = 'hfun'
        f.body = ('assign', [('fres', f)], ('bin', '+', ('bin', '×', V(f.params[0]), lit(2)), V(gi[0])))
        pp = D('proc', self.name('h'), None, params=[D('var', 'q2', 'i', mode='name', assigned=True)])
        pp.spec = 'hproc'
        pp.body = ('assign', [V(pp.params[0])], ('bin', '+', V(pp.params[0]), lit(1)))
        pf = D('proc', self.name('h'), 'i', params=[])
        pf.spec = 'hpfun'
        pf.body = ('comp', [('assign', [V(gi[1])], ('bin', '+', V(gi[1]), lit(1))), ('assign', [('fres', pf)], V(gi[1]))])
        sc = gi + gr + gb + [ga, gx, f, pp, pf]
        heads = [self.head() for _ in range(r.randrange(2, 6))]
        b.decls = gi + gr + gb + [ga, gx, f, pp, pf]
        hs = list(heads)
        for i, h in enumerate(hs):
            self.body(h, sc, hs[i + 1:], 2)
        r.shuffle(heads)
        b.decls += heads
        labels = [D('label', self.name('l')) for _ in range(2)]
        b.labels = labels
        s = D('switch', self.name('s'), elems=[('label', labels[0]), ('label', labels[1]), ('label', labels[0])])
        s.size = 3
        b.decls.append(s)
        st = [('assign', [V(d)], lit(10 + 7 * k)) for k, d in enumerate(gi)]
        st += [('assign', [V(d)], lit(N.from_frac(Fraction(5 + 2 * k, 4)))) for k, d in enumerate(gr)]
        st += [('assign', [V(d)], ('bool', bool(k))) for k, d in enumerate(gb)]
        for k in range(4):
            st += [('assign', [('idx', ga, [lit(k)])], lit(k * 3 + 1)), ('assign', [('idx', gx, [lit(k)])], lit(N.from_frac(Fraction(2 * k + 1, 2))))]
        st += self.calls_(hs[:1] * 3 + hs, sc, labels, None, [s], r.randrange(2, 6))
        st.append(('lbl', labels[0], ('comp', [('print', [lit(1)]), ('nlcr',)])))
        st += self.calls_(hs[:1] * 2 + hs, sc, labels[1:], None, [], r.randrange(1, 3))
        st.append(('lbl', labels[1], ('comp', [('print', [lit(2)]), ('nlcr',)])))
        for d in gi + gr + gb:
            st.append(self.show(V(d), d.typ))
        for k in range(4):
            st.append(('comp', [('print', [('idx', ga, [lit(k)]), ('idx', gx, [lit(k)])]), ('nlcr',)]))
        b.stmts = st
        return b


def case(item):
    seed, variant = item
    g = G(seed)
    b = g.program()
    if len(tokens(b)) > 6000:
        return skip("large program")
    return judge_block(b, seed, variant, dict(g.ev))
