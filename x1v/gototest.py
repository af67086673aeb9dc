"""P04: jumps.  Nested blocks and (recursive) procedures full of labels, switches, formal labels and switches; gotos from
statements, for bodies, function designators in the middle of expressions, array bounds, subscripts, parameters called by
name, formal procedures.  Every landing prints the variables of the activations it can see; the number of landings and
calls is bounded by a counter that ends the program by a goto out of everything."""
import random

from . import lang
from .core import skip
from .exprtest import judge_block
from .lang import D, Block, tokens



def lit(n):
    return ('num', n) if n >= 0 else ('neg', ('num', -n))


def V(d):
    return ('var', d)


class Sc:
    """What is visible."""
    def __init__(self, o=None):
        self.vars, self.labels, self.switches, self.procs, self.arrs, self.names, self.assignable = \
            ([list(x) for x in (o.vars, o.labels, o.switches, o.procs, o.arrs, o.names, o.assignable)] if o else [[] for _ in range(7)])


class G:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.cnt = 0
        self.ev = {}
        self.mark = 100
        self.budget = self.r.choice([25, 40, 60])
        self.lim = self.r.choice([45, 90, 90, 150])
        self.n = D('var', 'n', 'i')
        self.END = D('label', 'finish')
        self.jump = self.r.choice([.15, .3, .5])

    def name(self, p):
        self.cnt += 1
        return "%s%d" % (p, self.cnt)

    def nm(self):
        self.mark += 1
        return lit(self.mark)

    def count(self, k):
        self.ev[k] = self.ev.get(k, 0) + 1

    def mod(self, k, off=0):
        """(n + off) mod k"""
        n = V(self.n) if not off else ('par', ('bin', '+', V(self.n), lit(off)))
        return ('bin', '-', n, ('bin', '×', ('bin', '÷', n, lit(k)), lit(k)))

    def cond(self):
        r = self.r
        k = r.choice([2, 2, 3, 3, 4, 5])
        return ('rel', r.choice(['=', '=', '≠'] if k == 2 else '=<≥'), self.mod(k, r.randrange(k)), lit(r.randrange(k)))

    def fuel(self):
        return [('assign', [V(self.n)], ('bin', '+', V(self.n), lit(1))),
                ('if', ('rel', '>', V(self.n), lit(self.lim)), ('goto', ('label', self.END)), None)]

    def show(self, sc):
        vs = sc.vars[-3:] + ([self.r.choice(sc.vars)] if sc.vars else [])
        return [('print', [self.nm()] + [V(v) for v in vs]), ('nlcr',)]

    # ------------------------------------------------------- designational expressions
    def desig(self, sc, d=2, atom=False):
        r = self.r
        k = r.random()
        if d > 0 and sc.switches and k < .3:
            s = r.choice(sc.switches[-4:])
            self.count('switch designator')
            return ('sw', s, ('bin', '+', self.mod(s.size, r.randrange(s.size)), lit(1)) if r.random() < .8 else lit(r.randint(1, s.size)))
        if d > 0 and k < .45 and not atom:
            self.count('conditional designator')
            return ('dif', self.cond(), self.desig(sc, d - 1), self.desig(sc, d - 1))
        ls = sc.labels
        # innermost ones more often, and not the end
        f = [x for x in ls if x.mode]
        k = r.random()
        l = r.choice(f) if f and k < .25 else r.choice(ls[-4:]) if k < .6 else r.choice(ls)
        self.count('formal label' if l.mode else 'label')
        return ('label', l)

    def jumpst(self, sc):
        g = ('goto', self.desig(sc))
        return ('if', self.cond(), g, None) if self.r.random() < .9 else g

    # ------------------------------------------------------- expressions
    def iexpr(self, sc, d=2):
        r = self.r
        k = r.random()
        fs = [p for p in sc.procs if p.typ]
        if d > 0 and fs and k < self.jump:
            f = r.choice(fs[-4:])
            a = self.args(f, sc, d - 1)
            if a is not None:
                self.count('function designator')
                return ('call', f, a)
        if d > 0 and k < .7:
            return ('bin', r.choice('+-'), self.iexpr(sc, d - 1), self.iexpr(sc, d - 1))
        if d > 0 and k < .8 and sc.arrs:
            a = r.choice(sc.arrs)
            return ('idx', a, [('bin', '×', self.iexpr(sc, d - 1), lit(0)) if r.random() < .5 else lit(r.randint(0, 2))])
        if d > 0 and k < .85:
            return ('if', self.cond(), self.iexpr(sc, d - 1), self.iexpr(sc, d - 1))
        if sc.vars + sc.names and k < .95:
            return V(r.choice(sc.vars + sc.names))
        return lit(r.randrange(0, 90))

    def args(self, f, sc, d):
        r = self.r
        out = []
        for p in f.params:
            k = p.spec
            if k == 'vi':
                a = self.iexpr(sc, d)
            elif k == 'ni':
                a = self.iexpr(sc, d)
                self.count('by name')
            elif k == 'wi':
                a = V(r.choice(sc.assignable)) if r.random() < .7 or not sc.arrs else ('idx', r.choice(sc.arrs), [('bin', '-', self.iexpr(sc, d), self.iexpr(sc, 0)) if 0 else lit(r.randint(0, 2))])
            elif k == 'label':
                if d >= 0 and r.random() < .3:
                    a = self.desig(sc, 1)
                else:
                    a = ('label', r.choice(sc.labels[-5:]))
            elif k == 'switch':
                if not sc.switches:
                    return None
                s = r.choice([x for x in sc.switches if x.size == 3] or [None])
                if s is None:
                    return None
                a = ('switch', s)
            elif k in ('proc', 'fun'):
                c = [q for q in sc.procs if not q.params and bool(q.typ) == (k == 'fun') and q.typ in (None, 'i')]
                if not c:
                    return None
                a = ('proc', r.choice(c))
                self.count('procedure as parameter')
            out.append(a)
        return out

    # ------------------------------------------------------- declarations
    def proc(self, sc, depth):
        r = self.r
        h = D('proc', self.name('p'), r.choice([None, None, 'i', 'i']))
        ps = []
        for _ in range(r.choice([0, 0, 1, 1, 2, 2, 3, 4])):
            k = r.choice(['vi', 'ni', 'wi', 'label', 'label', 'label', 'switch', 'proc', 'fun'])
            nm = self.name('f')
            p = D('var', nm, 'i', mode='value' if k == 'vi' else 'name') if k in ('vi', 'ni', 'wi') else \
                D(k, nm, mode='name') if k in ('label', 'switch') else D('proc', nm, 'i' if k == 'fun' else None, mode='name', params=[])
            p.spec = k
            p.assigned = k == 'wi'
            if k == 'switch':
                p.size = 3
            ps.append(p)
        h.params = ps
        return h

    def fill(self, h, sc, depth):
        r = self.r
        s = Sc(sc)
        for p in h.params:
            k = p.spec
            if k == 'vi':
                s.vars.append(p)
                s.assignable.append(p)
            elif k == 'ni':
                s.names.append(p)
            elif k == 'wi':
                s.names.append(p)
                s.assignable.append(p)
            elif k == 'label':
                s.labels.append(p)
                if r.random() < .5:
                    s.labels.append(p)
            elif k == 'switch':
                s.switches.append(p)
            else:
                s.procs.append(p)
        pre = self.fuel() + ([('assign', [('fres', h)], lit(r.randrange(90)))] if h.typ else [])
        b = self.block(s, depth - 1, pre, 'proc')
        if h.typ:
            b.stmts.append(('assign', [('fres', h)], self.iexpr(s, 1)))
        h.body = ('block', b)

    def block(self, sc, depth, pre=(), where='block', extra=()):
        r = self.r
        s = Sc(sc)
        b = Block()
        b.decls = list(extra)
        st = []
        vs = [D('var', self.name('v'), 'i') for _ in range(r.choice([1, 1, 2]))]
        b.decls += vs
        b.labels = [D('label', self.name('l')) for _ in range(r.choice([1, 1, 2, 2, 3]))]
        if where == 'main':
            b.labels.append(self.END)
        s.vars += vs
        s.assignable += vs
        own = [l for l in b.labels if l is not self.END]
        s.labels += own
        st += [('assign', [V(v)], self.nm() if r.random() < .6 else ('bin', '+', ('bin', '×', V(self.n), lit(1000)), self.nm())) for v in vs]
        for x in extra:
            s.arrs.append(x)
            st += [('assign', [('idx', x, [lit(i)])], self.nm()) for i in range(3)]
        for _ in range(r.choice([0, 1, 1, 2])):
            w = D('switch', self.name('s'))
            w.size = r.choice([2, 3, 3, 3, 4])
            w.elems = [self.desig(s) for _ in range(w.size)]
            b.decls.append(w)
            s.switches.append(w)
        if depth > 0:
            hs = [self.proc(s, depth) for _ in range(r.choice([0, 1, 1, 2]) if where != 'main' else r.randint(2, 3))]
            # all procedures of the block see each other
            s.procs += hs
            for h in hs:
                self.fill(h, s, depth)
            b.decls += hs
        # statements: a label at every place where it is due
        n = r.randint(3, 6) + len(own)
        at = sorted(r.sample(range(n), len(own)))
        st = list(pre) + st
        for i in range(n):
            x = self.statement(s, depth)
            if i in at:
                l = own[at.index(i)]
                st.append(('lbl', l, ('comp', self.fuel() + self.show(s))))
            st.append(x)
        if r.random() < .5:
            st.append(('comp', self.show(s)))
        b.stmts = st
        return b

    def statement(self, sc, depth):
        r = self.r
        self.budget -= 1
        if self.budget < 0:
            return ('comp', self.show(sc))
        k = r.random()
        if k < .3:
            return self.jumpst(sc)
        if k < .45:
            c = [p for p in sc.procs if not p.typ]
            if c:
                h = r.choice(c[-4:])
                a = self.args(h, sc, 2)
                if a is not None:
                    self.count('call')
                    return ('pcall', h, a)
            return self.jumpst(sc)
        if k < .62:
            t = V(r.choice(sc.assignable))
            if sc.arrs and r.random() < .3:
                t = ('idx', r.choice(sc.arrs), [('bin', '×', self.iexpr(sc, 1), lit(0))])
            return ('assign', [t] if r.random() < .8 else [t, V(r.choice(sc.assignable))], self.iexpr(sc, 3))
        if k < .72:
            # a for statement left by a jump, or with a label inside
            v = r.choice([x for x in sc.assignable if x.mode != 'name'])
            if r.random() < .3:
                l = D('label', self.name('l'))
                s2 = Sc(sc)
                s2.labels.append(l)
                bd = [('lbl', l, ('comp', self.fuel() + self.show(sc))), self.jumpst(s2), self.statement(s2, 0)]
                self.count('label in a for body')
            else:
                bd = [self.jumpst(sc)] + ([self.statement(sc, 0)] if r.random() < .6 else [])
                r.shuffle(bd)
            self.count('for')
            el = r.choice([[('step', lit(1), lit(1), lit(r.randint(2, 4)))], [('e', lit(1)), ('e', self.iexpr(sc, 1))],
                           [('step', self.iexpr(sc, 1), lit(1), ('bin', '+', V(v), lit(0)))],
                           [('e', lit(4)), ('step', lit(1), lit(2), lit(4))],
                           [('while', self.iexpr(sc, 0), self.cond())]])
            # the count of rounds must be bounded whatever the body does to the variable
            return ('for', V(v), el, ('comp', self.fuel() + bd))
        if k < .9 and depth > 0:
            self.count('block')
            ex = []
            if r.random() < .4:
                ex = [D('arr', self.name('a'), 'i', bounds=[(lit(0), ('bin', '+', ('bin', '×', self.iexpr(sc, 2), lit(0)), lit(r.randint(2, 6))))], ndim=1)]
                self.count('array block')
            return ('block', self.block(sc, depth - 1, (), 'block', ex))
        if k < .95:
            return ('if', self.cond(), ('comp', [self.statement(sc, 0), self.jumpst(sc)]), None if r.random() < .5 else self.jumpst_plain(sc))
        if k < .97:
            return ('assign', [V(self.n)], ('bin', '+', V(self.n), lit(r.randint(1, 3))))
        return ('comp', self.show(sc))

    def jumpst_plain(self, sc):
        return ('goto', self.desig(sc))

    def program(self):
        b = self.block(Sc(), self.r.choice([1, 2, 2, 3]), [('assign', [V(self.n)], lit(0))], 'main')
        b.decls.insert(0, self.n)
        L = D('label', 'again')
        # again and again until the counter ends it
        b.stmts.insert(len(b.decls) and 1, ('lbl', L, ('comp', self.fuel())))
        b.labels.append(L)
        b.stmts.append(('goto', ('label', L)))
        b.stmts.append(('lbl', self.END, ('comp', [('print', [lit(1), V(self.n)]), ('nlcr',)])))
        return b


def case(item):
    seed, variant = item
    g = G(seed)
    b = g.program()
    if len(tokens(b)) > 6500:
        return skip("large program")
    return judge_block(b, seed, variant, dict(g.ev))
