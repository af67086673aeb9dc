"""Array-history programs: arrays of every kind side by side with guard variables, random reads and writes, dumps."""
import random
import re
from fractions import Fraction

from . import num as N
from .core import ok, bad, skip, unsure, case_hash
from .diff import wrap, run_block, agree, describe, shrink, render
from .lang import D, Block, Interp, Discard


def lit(v):
    if v < 0:
        return ('neg', ('num', -v, str(-v)))
    return ('num', v, str(v))


def rlit(v):
    """real literal from a Fraction with a short decimal expansion"""
    s = '%s' % float(abs(v))
    e = ('num', N.from_frac(abs(v)), s)
    return ('neg', e) if v < 0 else e


V = lambda d: ('var', d)
OFF = {'i': 0, 'r': 1}


class A:
    """The generator's knowledge of an array."""
    def __init__(self, d, size):
        self.d, self.size, self.typ = d, size, d.typ

    def total(self):
        t = 1
        for lo, hi in self.size:
            t *= hi - lo + 1
        return t


class G:
    def __init__(self, seed, err=0.35):
        self.r = random.Random(seed)
        self.n = 0
        self.uniq = 100
        self.err = err
        self.guards = []
        self.ev = {}

    def name(self, p='a'):
        self.n += 1
        return '%s%d' % (p, self.n)

    # ---- sizes
    def size(self, maxtot=60, nd=None):
        r = self.r
        nd = nd or r.choice([1, 1, 1, 2, 2, 2, 3, 3, 4, 5])
        while True:
            s = []
            for _ in range(nd):
                lo = r.choice([0, 1, 1, -1, -3, 2, 7, -20, 100, r.randrange(-900, 900)]) if r.random() < .95 else r.randrange(-40000, 40000)
                s.append((lo, lo + r.choice([0, 0, 1, 1, 2, 3, 4, r.randrange(12)])))
            t = 1
            for lo, hi in s:
                t *= hi - lo + 1
            if t <= maxtot:
                return s

    def bexpr(self, v, dyn):
        """A bound: a literal, or (dynamic) an expression over known variables."""
        r = self.r
        if not dyn or r.random() < .4:
            return lit(v)
        k = r.random()
        if k < .8:
            d, val = r.choice(self.known)
            diff = v - val
            if diff == 0:
                return V(d)
            if diff > 0:
                return ('bin', '+', V(d), lit(diff))
            return ('bin', '-', V(d), lit(-diff))
        return ('call', self.idf, [lit(v)]) if r.random() < .5 else ('std', 'entier', rlit(Fraction(v) + Fraction(r.randrange(8), 8)))

    def index(self, v):
        """A subscript expression with value v."""
        r = self.r
        k = r.random()
        if abs(v) >= 1 << 24 and k >= .65:
            k = r.choice([0, 1])
        if k < .45:
            return lit(v)
        if k < .65:
            d, val = r.choice(self.known)
            diff = v - val
            if diff >= 0:
                return ('bin', '+', V(d), lit(diff))
            return ('bin', '-', V(d), lit(-diff))
        if k < .70 and v:
            # a half, rounded away from zero
            h = Fraction(v) + (Fraction(-1, 2) if v > 0 else Fraction(1, 2))
            self.ev['half subscript'] = self.ev.get('half subscript', 0) + 1
            return rlit(h) if r.random() < .5 else ('bin', '/', ('par', lit(int(2 * h))), lit(2))
        if k < .75:
            return rlit(Fraction(v) + r.choice([Fraction(1, 4), Fraction(-1, 4), Fraction(3, 8), Fraction(-3, 8)]))
        if k < .85:
            return ('if', ('rel', '<', lit(r.randrange(5)), V(self.known[0][0])), lit(v), lit(v)) if r.random() < .5 else \
                ('par', ('bin', '×', lit(v), lit(1)))
        if k < .93 and self.ident is not None:
            # through an array of numbers: ix[j] = j
            a = self.ident
            lo, hi = a.size[0]
            j = r.randint(lo, hi)
            diff = v - j
            e = ('idx', a.d, [lit(j)])
            return ('bin', '+' if diff >= 0 else '-', e, lit(abs(diff)))
        return ('call', self.idf, [lit(v)])

    def subs(self, a):
        return [self.index(self.r.randint(lo, hi)) for lo, hi in a.size]

    def elem(self, a):
        return ('idx', a.d, self.subs(a))

    def value(self, typ):
        r = self.r
        self.uniq += 1
        if typ == 'i':
            return lit(self.uniq * 7 if r.random() < .8 else r.choice([67108863, -67108863, 0, -1, -self.uniq]))
        if typ == 'r':
            return rlit(Fraction(self.uniq) + Fraction(1, r.choice([2, 4, 8]))) if r.random() < .8 else lit(self.uniq)
        return ('bool', r.random() < .5)

    # ---- statements
    def fill(self, a, lv):
        """for-loops giving every element a distinct value"""
        r = self.r
        idx = [V(v) for v in lv[:len(a.size)]]
        self.uniq += 1
        base = self.uniq * 211
        e = lit(base)
        w = 1
        if a.typ == 'b':
            e = ('rel', '<', V(lv[0]), lit(r.randint(*a.size[0])))
        else:
            for (lo, hi), v in zip(a.size, lv):
                e = ('bin', '+', e, ('bin', '×', V(v), lit(w)))
                w *= hi - lo + 1
            if a.typ == 'r':
                e = ('bin', '/', ('par', e), lit(r.choice([2, 4, 8, 16])))
        s = ('assign', [('idx', a.d, idx)], e)
        order = list(range(len(a.size)))
        if r.random() < .3:
            r.shuffle(order)
        for k in order:
            lo, hi = a.size[k]
            if r.random() < .7:
                el = ('step', lit(lo), lit(1), lit(hi))
            else:
                el = ('step', lit(hi), lit(-1), lit(lo))
            s = ('for', V(lv[k]), [el], s)
        return s

    def dump(self, a, lv, every=False):
        idx = [V(v) for v in lv[:len(a.size)]]
        e = ('idx', a.d, idx)
        if a.typ == 'b':
            e = ('if', e, lit(1), lit(2))
        s = ('comp', [('print', [e]), ('nlcr',)])
        for k in range(len(a.size)):
            lo, hi = a.size[k]
            s = ('for', V(lv[k]), [('step', lit(lo), lit(1), lit(hi))], s)
        self.ev['dump'] = self.ev.get('dump', 0) + 1
        return s

    def show(self, e, typ):
        if typ == 'b':
            e = ('if', e, lit(1), lit(2))
        return ('comp', [('print', [e]), ('nlcr',)])

    def compat(self, typ, arrs):
        return [a for a in arrs if (a.typ == 'b') == (typ == 'b')]

    def op(self, arrs, lv, procs):
        r = self.r
        a = r.choice(arrs)
        k = r.random()
        E = self.ev

        def cnt(x):
            E[x] = E.get(x, 0) + 1
        if k < .30:
            cnt('write')
            return ('assign', [self.elem(a)], self.value(a.typ))
        if k < .42:
            cnt('copy')
            b = r.choice(self.compat(a.typ, arrs))
            if b.typ == 'r' and a.typ == 'i':
                return ('assign', [self.elem(a)], ('std', 'entier', ('par', ('bin', '/', self.elem(b), lit(4)))))
            return ('assign', [self.elem(a)], self.elem(b))
        if k < .50:
            b = r.choice([x for x in arrs if x.typ == a.typ])
            cnt('multi')
            return ('assign', [self.elem(a), self.elem(b)], self.value(a.typ))
        if k < .66:
            cnt('read')
            return self.show(self.elem(a), a.typ)
        if k < .74:
            cnt('guard')
            g = r.choice(self.guards)
            return ('assign', [V(g)], self.value(g.typ))
        if k < .80 and a.typ != 'b':
            cnt('by-name')
            return ('pcall', self.setp, [self.elem(a), self.value(a.typ)])
        if k < .84 and a.typ != 'b':
            b = r.choice([x for x in arrs if x.typ == a.typ])
            cnt('swap')
            return ('pcall', self.swapp[a.typ], [self.elem(a), self.elem(b)])
        if k < .95 and procs:
            fit = [(p, x) for p in procs for x in arrs if len(x.size) == p.ndim and ((x.typ == p.ptyp) if p.pmode == 'name' else
                                                                                  (x.typ in 'ir' and p.ptyp in 'ir' and len(x.size) <= 5))]
            if fit:
                p, x = r.choice(fit)
                cnt('array-parameter-' + p.pmode)
                at = [r.randint(lo, hi) for lo, hi in x.size]
                return ('pcall', p.d, [('arrp', x.d)] + [self.index(v) for v in at] + [self.value('i')])
        cnt('sum')
        # whole-array pass that changes every element in place
        if a.typ == 'b':
            return self.fill(a, lv)
        e = ('idx', a.d, [V(v) for v in lv[:len(a.size)]])
        s = ('assign', [e], ('bin', '+', ('bin', '/', e, lit(8)) if a.typ == 'r' else ('bin', '÷', e, lit(8)), lit(self.uniq % 50)))
        for q in range(len(a.size)):
            lo, hi = a.size[q]
            s = ('for', V(lv[q]), [('step', lit(lo), lit(1), lit(hi))], s)
        return s

    def bad_access(self, a):
        """A subscript combination outside the storage of a."""
        r = self.r
        at = [r.randint(lo, hi) for lo, hi in a.size]
        strides = []
        s = 1
        base = 0
        for lo, hi in a.size:
            strides.append(s)
            base += s * lo
            s *= hi - lo + 1
        wrap = self.wrapping(a, strides, base, s) if r.random() < .7 else None
        for _ in range(60):
            t = list(at)
            if wrap:
                k, delta = wrap
                t[k] += delta
                break
            k = r.randrange(len(t))
            t[k] += r.choice([-1, 1]) * r.choice([1, 1, 1, 2, 3, s, 50, 1000, 70000, r.randrange(1, 4000)])
            lin = sum(x * y for x, y in zip(t, strides)) - base
            if lin < 0 or lin >= s:
                break
        else:
            return None
        e = ('idx', a.d, [self.index(v) for v in t])
        self.ev['outside'] = 1
        if r.random() < .5:
            return self.show(e, a.typ)
        if r.random() < .3 and a.typ != 'b':
            return ('pcall', self.setp, [e, self.value(a.typ)])
        return ('assign', [e], self.value(a.typ))

    def wrapping(self, a, strides, base, size):
        """A dimension and a change of its subscript that moves the element by a power of two
        (the place is inside the array again if addresses were reckoned with that many bits)."""
        r = self.r
        el = 2 if a.typ == 'r' else 1
        out = []
        for k, st in enumerate(strides):
            for bits in (32, 31, 28, 27, 26, 18, 16, 15):
                # a multiple of the place is enough when the stride does not divide it
                for m in (1, 3, 5):
                    d, q = divmod((1 << bits) * m, st * el)
                    lo, hi = a.size[k]
                    if q == 0 and d < (1 << 26) - 2000:
                        out.append((bits, k, d))
        if not out:
            return None
        big = [x for x in out if x[0] > 30]
        bits, k, d = r.choice(big if big and r.random() < .7 else out)
        self.ev['wrapping subscript'] = 1
        if bits > 30:
            self.ev['subscript wrapping at 2^%d' % bits] = 1
        return k, r.choice([-1, 1]) * d

    # ---- procedures
    class P:
        pass

    def mkproc(self, outer):
        """procedure p(f, s1, .., sn, v): changes and prints f[s1..sn], through its formal array."""
        r = self.r
        a = r.choice(outer)
        p = G.P()
        p.ndim = len(a.size)
        p.ptyp = a.typ
        p.pmode = 'name'
        if a.typ != 'b' and r.random() < .5:
            p.pmode = 'value'
            if r.random() < .4:
                p.ptyp = 'i' if a.typ == 'r' else 'r'
        d = D('proc', self.name('p'))
        f = D('arr', self.name('f'), p.ptyp, mode=p.pmode, ndim=p.ndim)
        if p.ptyp == 'r' and r.random() < .4:
            f.spec = 'plain'
        ss = [D('var', self.name('s'), 'i', mode=r.choice(['value', 'name'])) for _ in range(p.ndim)]
        v = D('var', self.name('v'), 'i', mode='value')
        d.params = [f] + ss + [v]
        el = ('idx', f, [V(x) for x in ss])
        st = [self.show(el, p.ptyp)]
        val = ('rel', '<', V(v), lit(500)) if p.ptyp == 'b' else V(v)
        st.append(('assign', [el], val))
        st.append(self.show(el, p.ptyp))
        if r.random() < .5:
            # local variables and an array of its own between
            b = Block()
            g = D('var', self.name('g'), 'i')
            L = D('arr', self.name('l'), r.choice('ir'), bounds=[(lit(0), ('bin', '+', lit(1), lit(r.randrange(4))))])
            L.ndim = 1
            la = A(L, [(0, 1)])
            b.decls = [g, L]
            b.stmts = [('assign', [V(g)], lit(17)), ('assign', [('idx', L, [lit(0)])], V(v)), ('assign', [('idx', L, [lit(1)])], V(g))] + st + \
                [('comp', [('print', [V(g), ('idx', L, [lit(0)]), ('idx', L, [lit(1)])]), ('nlcr',)])]
            d.body = ('block', b)
        else:
            d.body = ('comp', st)
        p.d = d
        out = [p]
        if r.random() < .4:
            # passes its array on
            q = G.P()
            q.ndim, q.ptyp = p.ndim, p.ptyp
            q.pmode = r.choice(['name', 'value']) if p.ptyp != 'b' else 'name'
            e = D('proc', self.name('q'))
            f2 = D('arr', self.name('f'), p.ptyp, mode=q.pmode, ndim=p.ndim)
            s2 = [D('var', self.name('s'), 'i', mode=r.choice(['value', 'name'])) for _ in range(p.ndim)]
            v2 = D('var', self.name('v'), 'i', mode='value')
            e.params = [f2] + s2 + [v2]
            e.body = ('comp', [('pcall', d, [('arrp', f2)] + [V(x) for x in s2] + [V(v2)]), self.show(('idx', f2, [V(x) for x in s2]), p.ptyp)])
            q.d = e
            out.append(q)
        return out

    def recursive(self):
        """A procedure whose every activation has an array of its own size; all are intact after the inner calls."""
        r = self.r
        d = D('proc', self.name('rec'))
        n = D('var', self.name('n'), 'i', mode='value')
        d.params = [n]
        b = Block()
        i = D('var', self.name('i'), 'i')
        t = r.choice('ir')
        lo = r.choice([1, 0, -2])
        mult = r.choice([1, 2, 3])
        L = D('arr', self.name('l'), t, ndim=1, bounds=[(lit(lo), ('bin', '+', ('bin', '×', V(n), lit(mult)), lit(2)))])
        decl = [i, L]
        hi = ('bin', '+', ('bin', '×', V(n), lit(mult)), lit(2))
        b.decls = decl
        loop = lambda s: ('for', V(i), [('step', lit(lo), lit(1), hi)], s)
        b.stmts = [loop(('assign', [('idx', L, [V(i)])], ('bin', '+', ('bin', '×', V(n), lit(1000)), V(i)))),
                   ('if', ('rel', '>', V(n), lit(0)), ('pcall', d, [('bin', '-', V(n), lit(1))]), None)]
        if r.random() < .5:
            b.stmts.append(('if', ('rel', '>', V(n), lit(1)), ('pcall', d, [('bin', '-', V(n), lit(2))]), None))
        b.stmts.append(loop(('comp', [('print', [('idx', L, [V(i)])]), ('nlcr',)])))
        d.body = ('block', b)
        return d, ('pcall', d, [lit(r.randint(1, 4))])

    def ownproc(self):
        """A procedure with own arrays: the elements keep their values between the calls."""
        r = self.r
        d = D('proc', self.name('own'))
        k = D('var', self.name('k'), 'i', mode='value')
        v = D('var', self.name('v'), 'i', mode='value')
        first = D('var', self.name('first'), 'b', mode='value')
        d.params = [k, v, first]
        size = self.size(12, 1)
        size2 = self.size(12, r.choice([1, 2]))
        t = r.choice('ir')
        o1 = D('arr', self.name('o'), t, ndim=1, own=True, bounds=[(lit(a), lit(b)) for a, b in size])
        o2 = D('arr', self.name('o'), r.choice('ir'), ndim=len(size2), own=True, bounds=[(lit(a), lit(b)) for a, b in size2])
        o2.join = r.random() < .5
        c = D('var', self.name('c'), 'i', own=True)
        lv = [D('var', self.name('i'), 'i') for _ in range(2)]
        b = Block()
        b.decls = [c, o1, o2] + lv
        if r.random() < .5:
            b.decls = lv + [o1, o2, c]
        lo, hi = size[0]
        A1, A2 = A(o1, size), A(o2, size2)
        b.stmts = [('if', V(first), ('comp', [self.fill(A1, lv), self.fill(A2, lv), ('assign', [V(c)], lit(0))]), None),
                   ('assign', [V(c)], ('bin', '+', V(c), lit(1))),
                   ('assign', [('idx', o1, [V(k)])], ('bin', '+', V(v), V(c))),
                   self.dump(A1, lv), ('comp', [('print', [V(c)]), ('nlcr',)])]
        if r.random() < .6:
            b.stmts.append(('assign', [('idx', o2, [lit(r.randint(*s)) for s in size2])], V(v)))
            b.stmts.append(self.dump(A2, lv))
        d.body = ('block', b)
        out = []
        for i in range(r.randint(2, 4)):
            out.append(('pcall', d, [lit(r.randint(lo, hi)), lit(r.randrange(1000)), ('bool', i == 0)]))
        return d, out

    # ---- the program
    def program(self):
        r = self.r
        b = Block()
        self.known = []
        kn = [D('var', self.name('k'), 'i') for _ in range(2)]
        lv = [D('var', self.name('i'), 'i') for _ in range(5)]
        init = []
        decls = []
        for d in kn:
            v = r.randrange(-5, 9)
            self.known.append((d, v))
            init.append(('assign', [V(d)], lit(v)))
        decls += [kn[0]] + lv + [kn[1]]
        # helper procedures
        x = D('var', self.name('x'), 'i', mode='value')
        self.idf = D('proc', self.name('id'), 'i', params=[x])
        self.idf.body = ('assign', [('fres', self.idf)], V(x))
        y, z = D('var', self.name('y'), 'r', mode='name'), D('var', self.name('z'), 'r', mode='value')
        self.setp = D('proc', self.name('set'), params=[y, z])
        self.setp.body = ('assign', [V(y)], V(z))
        self.swapp = {}
        for t in 'ir':
            p1, p2 = D('var', self.name('u'), t, mode='name'), D('var', self.name('w'), t, mode='name')
            tmp = D('var', self.name('t'), t)
            bb = Block()
            bb.decls = [tmp]
            bb.stmts = [('assign', [V(tmp)], V(p1)), ('assign', [V(p1)], V(p2)), ('assign', [V(p2)], V(tmp))]
            self.swapp[t] = D('proc', self.name('swap'), params=[p1, p2], body=('block', bb))
        procs = [self.idf, self.setp, self.swapp['i'], self.swapp['r']]
        self.ident = None
        arrs, adecls = self.arrays(False, r.randint(2, 4))
        if r.random() < .6:
            lo = r.choice([0, 1, -3])
            d = D('arr', self.name('ix'), 'i', ndim=1, bounds=[(lit(lo), lit(lo + 5))])
            ident = A(d, [(lo, lo + 5)])
            adecls.insert(r.randrange(len(adecls) + 1), d)
            init.append(('for', V(lv[0]), [('step', lit(lo), lit(1), lit(lo + 5))], ('assign', [('idx', d, [V(lv[0])])], V(lv[0]))))
            self.ident = ident
        gl = self.guarded(adecls)
        decls += gl
        for g in self.guards:
            init.append(('assign', [V(g)], self.value(g.typ)))
        for a in arrs:
            init.append(self.fill(a, lv))
        P = []
        for _ in range(r.randint(0, 2)):
            P += self.mkproc(arrs)
        stm = []
        if r.random() < .3:
            d, c = self.recursive()
            procs.append(d)
            stm.append(c)
            self.ev['recursive'] = 1
        if r.random() < .4:
            d, c = self.ownproc()
            procs.append(d)
            stm += c
            self.ev['own-array'] = 1
        procs += [p.d for p in P]
        for _ in range(r.randint(3, 12)):
            stm.append(self.op(arrs, lv, P))
        for _ in range(r.choice([0, 1, 1, 2])):
            stm.append(self.inner(arrs, lv, P, 2))
        for _ in range(r.randint(0, 6)):
            stm.append(self.op(arrs, lv, P))
        if r.random() < .5:
            r.shuffle(stm)
            # own arrays must be filled by their first call
            own = [i for i, s in enumerate(stm) if s[0] == 'pcall' and s[1].name.startswith('own')]
            calls = sorted((stm[i] for i in own), key=lambda s: not s[2][2][1])
            for i, s in zip(own, calls):
                stm[i] = s
        end = [self.dump(a, lv) for a in arrs]
        end += [self.show(V(g), g.typ) for g in self.guards]
        if r.random() < self.err:
            wide = [a for a in arrs if len(a.size) > 1 and (a.size[0][1] - a.size[0][0] + 1) in (16, 64, 128)]
            x = self.bad_access(r.choice(wide if wide and r.random() < .7 else arrs))
            if x:
                end.append(x)
                end.append(('comp', [('print', [lit(77777)]), ('nlcr',)]))
        b.decls = decls[:] if r.random() < .5 else decls
        b.decls += procs
        b.stmts = init + stm + end
        return b

    def arrays(self, dyn, n):
        r = self.r
        out, decls = [], []
        for _ in range(n):
            t = r.choice('iirrb')
            s = self.size(60 if not dyn else 40)
            if not dyn and r.random() < .12:
                # a first dimension of a power of two: the stride of the second is one
                lo = r.choice([0, 1, 1, -3])
                n2 = r.choice([1, 2, 2, 3])
                s = [(lo, lo + r.choice([64, 128, 128]) - 1), (1, n2)] if r.random() < .6 else \
                    [(lo, lo + 15), (0, 7), (lo, lo + n2 - 1)]
            bounds = [(self.bexpr(lo, dyn), self.bexpr(hi, dyn)) for lo, hi in s]
            for j in range(r.choice([1, 1, 2])):
                d = D('arr', self.name('a'), t, bounds=bounds, ndim=len(s))
                if t == 'r' and r.random() < .4 and j == 0:
                    d.spec = 'plain'
                if j:
                    d.spec = out[-1].d.spec
                elif r.random() < .4:
                    d.join = True
                out.append(A(d, s))
                decls.append(d)
        return out, decls

    def guarded(self, adecls):
        """Scalar variables between the arrays."""
        r = self.r
        out = []
        for d in adecls:
            if r.random() < .5 and not d.join and not (out and out[-1].kind == 'arr' and out[-1].bounds is d.bounds):
                g = D('var', self.name('g'), r.choice('irib'))
                out.append(g)
                self.guards.append(g)
            out.append(d)
        g = D('var', self.name('g'), r.choice('ir'))
        self.guards.append(g)
        out.append(g)
        return out

    def inner(self, outer, lv, P, depth):
        """A block with arrays of computed bounds, sometimes entered several times, sometimes left by a goto."""
        r = self.r
        save_known = list(self.known)
        save_g = list(self.guards)
        b = Block()
        loopv = None
        if r.random() < .3:
            # entered in a loop with different sizes
            n = r.randint(2, 3)
            lo = r.choice([1, 0, -3])
            h = D('var', self.name('h'), 'i')
            t = r.choice('ir')
            d = D('arr', self.name('d'), t, ndim=1, bounds=[(lit(lo), ('bin', '+', V(h), lit(2)))])
            d2 = D('arr', self.name('d'), 'i', ndim=2, bounds=[(V(h), ('bin', '+', V(h), lit(1))), (lit(0), V(h))])
            i, j = lv[0], lv[1]
            g = D('var', self.name('g'), 'i')
            ib = Block()
            ib.decls = [g, d, d2]
            hi = ('bin', '+', V(h), lit(2))
            L = D('label', self.name('L'))
            body = [('assign', [V(g)], lit(5)),
                    ('for', V(i), [('step', lit(lo), lit(1), hi)], ('assign', [('idx', d, [V(i)])], ('bin', '+', ('bin', '×', V(h), lit(100)), V(i)))),
                    ('for', V(i), [('step', V(h), lit(1), ('bin', '+', V(h), lit(1)))], ('for', V(j), [('step', lit(0), lit(1), V(h))],
                     ('assign', [('idx', d2, [V(i), V(j)])], ('bin', '+', ('bin', '×', V(i), lit(10)), V(j))))),
                    self.op(outer, lv, P)]
            left = r.random() < .4
            body += [('for', V(i), [('step', lit(lo), lit(1), hi)], ('comp', [('print', [('idx', d, [V(i)])]), ('nlcr',)])),
                     ('comp', [('print', [V(g), ('idx', d2, [V(h), lit(0)]), ('idx', d2, [('bin', '+', V(h), lit(1)), V(h)])]), ('nlcr',)])]
            if left:
                body.append(('if', ('rel', '>', V(g), lit(0)), ('goto', ('label', L)), None))
                body.append(('print', [lit(66666)]))
            ib.stmts = body
            ob = Block()
            ob.decls = [h]
            ob.labels = []
            inner = ('block', ib)
            if left:
                inner = ('comp', [inner, ('lbl', L, ('dummy',))])
            ob.stmts = [('for', V(h), [('step', lit(1), lit(1), lit(n))], inner)]
            self.ev['block-re-entered'] = 1
            self.known, self.guards = save_known, save_g
            return ('block', ob)
        arrs, adecls = self.arrays(True, r.randint(1, 3))
        self.guards = []
        b.decls = self.guarded(adecls)
        init = [('assign', [V(g)], self.value(g.typ)) for g in self.guards]
        init += [self.fill(a, lv) for a in arrs]
        allp = list(P)
        stm = []
        locp = []
        if r.random() < .4:
            locp = self.mkproc(arrs)
            allp = allp + locp
        pool = arrs + outer
        for _ in range(r.randint(2, 8)):
            stm.append(self.op(pool, lv, allp))
        if depth > 0 and r.random() < .3:
            stm.append(self.inner(pool, lv, allp, depth - 1))
        stm += [self.dump(a, lv) for a in arrs] + [self.show(V(g), g.typ) for g in self.guards]
        if r.random() < self.err * .4:
            x = self.bad_access(r.choice(arrs))
            if x:
                stm.append(x)
        b.decls += [p.d for p in locp]
        b.stmts = init + stm
        self.ev['dynamic'] = self.ev.get('dynamic', 0) + len(arrs)
        self.known, self.guards = save_known, save_g
        return ('block', b)


def case(item):
    """item: [seed, variant]"""
    seed, variant = item
    g = G(seed)
    b = g.program()
    ev = {}
    it = Interp(max_steps=200000, events=ev)
    try:
        out, good = it.run(b)
    except Discard as x:
        return skip(str(x))
    b = wrap(b, seed, ev=ev)
    src, r = run_block(b, seed, variant)
    if r.timeout:
        return unsure("watchdog")
    ev.update(g.ev)
    ev["programs:" + variant] = 1
    ev["ended with an error" if not good else "ended normally"] = 1
    if not good:
        ev["error: " + it.error] = 1
    if agree(r, out, good):
        m = re.search(r"Index (-?\d+) is beyond limits for array \[(-?\d+):(-?\d+)\]", r.etext)
        if not good and m and getattr(it, "detail", None):
            ev["messages with subscript and bounds"] = 1
            if tuple(map(int, m.groups())) != tuple(it.detail):
                return bad(case_hash(src), "the message is %r; subscript and bounds are %d [%d:%d]" % ((m.group(0),) + tuple(it.detail)), {"program.a60": src, "got.txt": r.brief()})
        return ok(case_hash(src), ev, nontrivial=out.count('\n') > 5, sample={"seed": seed, "source": src[:2500], "exit": r.rc})
    msg = describe(src, out, good, r)
    small = src
    if not r.hang:
        b2 = shrink(b, seed, variant)
        small = render(b2, seed)
        msg += "\nreduced program:\n" + small
    return bad(case_hash(src), msg, {"program.a60": src, "reduced.a60": small, "expected.txt": out, "got.txt": r.brief()}, events=ev)
