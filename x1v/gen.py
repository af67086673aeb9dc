"""Random generator of terminating, (mostly) well-defined Algol 60 programs."""
import random
from . import num as N
from .num import R
from .lang import D, Block, tokens, Interp, Discard
from .reduce import well_scoped
from fractions import Fraction

DEFAULT = dict(size=14, depth=3, edepth=3, procs=3, reals=0.35, bools=0.25, arrays=0.35, fors=1.0, gotos=0.5,
               blocks=0.6, calls=1.0, procparams=0.3, labels=0.5, switches=0.4, own=0.3, text=0.2, shadow=0.4,
               longnames=0.3, errors=0.01, byname=0.55, recursion=0.6, jensen=0.25, values=0.2, even=0.05,
               libsum=0.0, maxblk=5)

POOL = "i j k n m x y z a b c p q r s t u v w A B F G P Q X Y".split()
RESERVED = set("read print TAB NLCR XEEN SPACE stop abs sign sqrt sin cos arctan ln exp entier FLOT FIXT ABSFIXT SUM "
               "PRINTTEXT EVEN RESYM PRSYM RANDOM SETRANDOM TIMEOFDAY".split())


def ilit(v):
    return ('num', v, str(v))


class Ctx:
    """What is visible at a program point."""
    __slots__ = ("scopes", "proc", "loops", "guard", "flevel", "labels_here", "blkdepth", "nofun", "pblocks")

    def __init__(self):
        self.scopes = []
        self.proc = None
        self.loops = []
        self.guard = None       # depth parameter that may be passed on (inside d>0)
        self.flevel = 0
        self.blkdepth = 0
        self.nofun = 0
        self.pblocks = 0

    def push(self, scope):
        c = Ctx()
        c.scopes = self.scopes + [scope]
        c.proc, c.loops, c.guard, c.flevel = self.proc, list(self.loops), self.guard, self.flevel
        c.blkdepth = self.blkdepth
        c.nofun = self.nofun
        c.pblocks = self.pblocks
        return c

    def visible(self):
        v = {}
        for s in self.scopes:
            for d in s:
                v[key(d.name)] = d
        return v.values()


def key(name):
    return name[:9]


LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'


class Gen:
    def __init__(self, seed, **cfg):
        self.rng = random.Random(seed)
        self.cfg = dict(DEFAULT)
        self.cfg.update(cfg)
        self.uid = 0
        self.marks = 0
        self.opened = []        # procedures whose bodies are being made
        self.oflags = []
        self.budget = self.cfg['size']
        # names that differ in one character only, or in their length
        r = random.Random(seed ^ 0x5eed)
        self.alike = None
        if r.random() < .3:
            self.alike = r.choice(LETTERS) + ''.join(r.choice(LETTERS + '0123456789') for _ in range(12)), r.choice([1, 2, 3, 4, 4, 5, 5, 6, 7, 8, 9, 9, 10])

    # -- helpers
    def p(self, k):
        v = self.cfg[k] if isinstance(k, str) else k
        return self.rng.random() < v

    def name(self, used, outer=()):
        r = self.rng
        for i in range(50):
            x = r.random()
            if self.alike and i < 30 and x < .8:
                n, k = self.alike
                n = list(n[:k if r.random() < .85 else r.randint(1, 13)])
                j = r.randrange(len(n))
                n[j] = r.choice(LETTERS + ('0123456789' if j else ''))
                n = ''.join(n)
            elif x < 0.5:
                n = r.choice(POOL)
            elif x < 1 - self.cfg['longnames']:
                n = r.choice(POOL) + str(r.randrange(10))
            else:
                n = r.choice(POOL) + ''.join(r.choice('abcdefghijklmnopqrstuvwxyzABCXYZ0123456789') for _ in range(r.randint(1, 11)))
            if n in RESERVED or n[:9] in [x[:9] for x in RESERVED]:
                continue
            if key(n) in used:
                continue
            if key(n) in outer and not self.p('shadow'):
                continue
            used.add(key(n))
            return n
        self.uid += 1
        n = 'zz%d' % self.uid
        used.add(n)
        return n

    def outer_names(self, c):
        return {key(d.name) for s in c.scopes for d in s}

    def vars(self, c, kind, typ=None, pred=None):
        return [d for d in c.visible() if d.kind == kind and (typ is None or d.typ == typ) and (pred is None or pred(d))]

    # -- expressions
    def int_lit(self):
        r = self.rng
        x = r.random()
        if x < .75:
            v = r.randrange(10)
        elif x < .95:
            v = r.randrange(200)
        else:
            v = r.choice([32767, 32768, 1023, 1024, 65535, 100000, 999999])
        return ilit(v)

    def real_lit(self):
        r = self.rng
        x = r.random()
        if x < .4:
            v = Fraction(r.randint(1, 64), r.choice([2, 4, 8, 16]))
            s = '%s' % float(v)
            if v.denominator == 1:
                s = str(v.numerator) + '.0'
            return ('num', N.from_frac(v), s)
        if x < .8:
            # few digits: the compiler's decimal conversion must be exact up to one rounding
            a, b = r.randint(0, 99), r.randint(1, 99)
            s = '%d.%02d' % (a, b)
            return ('num', N.from_frac(Fraction(a * 100 + b, 100)), s)
        e = r.choice([-3, -2, -1, 1, 2, 3])
        m = r.randint(1, 99)
        s = '%d⏨%+d' % (m, e) if r.random() < .5 else '%d⏨%d' % (m, e)
        return ('num', N.from_frac(Fraction(m) * Fraction(10) ** e), s)

    def readable(self, c, typ):
        return self.vars(c, 'var', typ)

    def gi(self, c, d):
        r = self.rng
        if d <= 0 or r.random() < .18:
            vs = self.readable(c, 'i')
            if vs and r.random() < .75:
                return ('var', r.choice(vs))
            return self.int_lit()
        x = r.random()
        if x < .34:
            return ('bin', r.choice('+-'), self.gi(c, d - 1), self.gi(c, d - 1))
        if x < .42:
            return ('bin', '×', self.gi(c, d - 1), ilit(r.randint(0, 12))) if r.random() < .7 else \
                ('bin', '×', ilit(r.randint(0, 12)), self.gi(c, d - 1))
        if x < .49:
            dv = ilit(r.choice([1, 2, 3, 5, 7, 10, 16, 100])) if r.random() < .8 else \
                ('par', ('bin', '+', ('bin', '×', ('par', self.gi(c, 0)), ('par', self.gi(c, 0))), ilit(1)))
            if dv[0] == 'par' and not self.p(.1):
                dv = ilit(r.randint(1, 9))
            return ('bin', '÷', ('par', self.gi(c, d - 1)), dv)
        if x < .55:
            return ('neg', self.gi(c, d - 1)) if r.random() < .8 else ('pos', self.gi(c, d - 1))
        if x < .62:
            return ('if', self.gb(c, d - 1), self.gi(c, d - 1), self.gi(c, d - 1))
        if x < .66:
            return ('std', 'sign', self.gi(c, d - 1) if r.random() < .5 else self.gr(c, d - 1))
        if x < .68 and self.p('reals'):
            return ('std', 'entier', self.gr(c, d - 1))
        if x < .70:
            return ('bin', '↑', ('par', ilit(r.randint(1, 9))) if r.random() < .5 else ('par', ('neg', ilit(r.randint(1, 9)))),
                    ilit(r.randint(0, 6)))
        if x < .80:
            e = self.g_elem(c, 'i', d)
            if e:
                return e
        if x < .97:
            e = self.g_call(c, 'i', d)
            if e:
                return e
        if self.p('even'):
            return ('even', self.gi(c, d - 1))
        return self.gi(c, d - 1)

    def gr(self, c, d):
        r = self.rng
        if d <= 0 or r.random() < .2:
            vs = self.readable(c, 'r')
            if vs and r.random() < .7:
                return ('var', r.choice(vs))
            return self.real_lit()
        x = r.random()
        if x < .30:
            a = self.gr(c, d - 1)
            b = self.gr(c, d - 1) if r.random() < .6 else self.gi(c, d - 1)
            if r.random() < .3:
                a, b = b, a
            return ('bin', r.choice('+-'), a, b)
        if x < .42:
            return ('bin', '×', self.gr(c, d - 1), self.gr(c, d - 1))
        if x < .55:
            a = self.gr(c, d - 1) if r.random() < .5 else self.gi(c, d - 1)
            return ('bin', '/', a, r.choice([ilit(r.randint(1, 12)), self.real_lit()]))
        if x < .60:
            return ('neg', self.gr(c, d - 1))
        if x < .67:
            return ('if', self.gb(c, d - 1), self.gr(c, d - 1), self.gr(c, d - 1))
        if x < .72:
            return ('std', 'abs', self.gr(c, d - 1) if r.random() < .7 else self.gi(c, d - 1))
        if x < .75:
            return ('std', 'sqrt', ('std', 'abs', self.gr(c, d - 1)))
        if x < .78:
            return ('bin', '↑', ('par', ('num', N.from_frac(Fraction(3, 2)), '1.5')), ilit(r.randint(0, 5)))
        if x < .87:
            e = self.g_elem(c, 'r', d)
            if e:
                return e
        e = self.g_call(c, 'r', d)
        if e:
            return e
        return self.gr(c, d - 1)

    def gb(self, c, d):
        r = self.rng
        if d <= 0 or r.random() < .15:
            vs = self.readable(c, 'b')
            if vs and r.random() < .75:
                return ('var', r.choice(vs))
            if r.random() < .4:
                return ('bool', r.random() < .5)
            return ('rel', r.choice('<≤=≥>≠'), self.gi(c, 0), self.gi(c, 0))
        x = r.random()
        if x < .45:
            a, b = (self.gi, self.gi)
            if self.p('reals') and r.random() < .4:
                a = self.gr
                if r.random() < .5:
                    b = self.gr
            return ('rel', r.choice('<≤=≥>≠'), a(c, d - 1), b(c, d - 1))
        if x < .70:
            return ('bop', r.choice('∧∨⊃≡'), self.gb(c, d - 1), self.gb(c, d - 1))
        if x < .80:
            return ('not', self.gb(c, d - 1))
        if x < .86:
            return ('if', self.gb(c, d - 1), self.gb(c, d - 1), self.gb(c, d - 1))
        if x < .92:
            e = self.g_elem(c, 'b', d)
            if e:
                return e
        e = self.g_call(c, 'b', d)
        if e:
            return e
        return ('not', ('par', self.gb(c, d - 1)))

    def g(self, c, typ, d):
        return {'i': self.gi, 'r': self.gr, 'b': self.gb}[typ](c, d)

    def index(self, c, lo, hi):
        """An index expression that is always within lo:hi."""
        r = self.rng
        if self.p('errors'):
            return ilit(hi + 500) if r.random() < .5 else self.small(lo - 500)
        loops = [(v, a, b) for v, a, b in c.loops if a >= lo and b <= hi]
        if loops and r.random() < .7:
            v, a, b = r.choice(loops)
            if r.random() < .3:
                return ('bin', '-', ilit(a + b), ('var', v)) if a + b >= 0 else \
                    ('bin', '-', ('neg', ilit(-a - b)), ('var', v))
            return ('var', v)
        loops = [(v, a, b) for v, a, b in c.loops if b - a <= hi - lo]
        if loops and r.random() < .3:
            v, a, b = r.choice(loops)
            k = lo - a
            return ('bin', '+', ('var', v), ilit(k)) if k >= 0 else ('bin', '-', ('var', v), ilit(-k))
        x = r.randint(lo, hi)
        if r.random() < .15:
            vs = self.readable(c, 'i')
            if vs:
                # clamp: if v in [lo,hi] then v else x
                v = ('var', r.choice(vs))
                return ('if', ('bop', '∧', ('rel', '≥', v, self.small(lo)), ('rel', '≤', v, self.small(hi))), v, self.small(x))
        if r.random() < .1:
            return ('bin', '/', ilit(2 * x) if x >= 0 else ('neg', ilit(-2 * x)), ilit(2))
        return self.small(x)

    def small(self, x):
        return ilit(x) if x >= 0 else ('neg', ilit(-x))

    def g_elem(self, c, typ, d):
        if d < 0:
            return None
        arrs = self.vars(c, 'arr', typ, lambda a: a.size is not None)
        if not arrs:
            return None
        a = self.rng.choice(arrs)
        return ('idx', a, [self.index(c, lo, hi) for lo, hi in a.size])

    def callable_(self, c, d):
        if d.kind != 'proc':
            return False
        if c.nofun:
            return False
        if d.sig == 'formal':
            return True
        if d.level >= 0 and d.depth and c.proc is not None and c.guard is None:
            # inside a procedure: only with a guarded depth
            return d.depth == 2 and d.level < c.proc.level
        return True

    def g_call(self, c, typ, d):
        if c.flevel > 3 or not self.p('calls'):
            return None
        ps = [x for x in c.visible() if self.callable_(c, x) and x.typ == typ]
        if not ps:
            return None
        f = self.rng.choice(ps)
        a = self.args(c, f, d - 1)
        if a is None:
            return None
        return ('call', f, a)

    def depth_arg(self, c):
        if c.guard is not None:
            return ('bin', '-', ('var', c.guard), ilit(1))
        return ilit(self.rng.randint(0, 3))

    def args(self, c, f, d):
        r = self.rng
        out = []
        c2 = c.push([])
        c2.flevel += 1
        for p in f.params:
            if p.spec == 'depth':
                out.append(self.depth_arg(c))
            elif p.kind == 'var':
                if p.assigned:
                    vs = self.vars(c, 'var', p.typ, lambda v: not v.nowrite and (v.mode != 'name' or v.assigned))
                    e = None
                    if r.random() < .3:
                        e = self.g_elem(c2, p.typ, d)
                        if e and any(x[0] == 'call' for x in e[2]):
                            e = None
                    if e is None:
                        if not vs:
                            return None
                        e = ('var', r.choice(vs))
                    out.append(e)
                elif p.mode == 'value' and p.typ == 'r' and r.random() < .3:
                    out.append(self.gi(c2, d))
                elif p.mode == 'value' and p.typ == 'i' and r.random() < .12 and self.cfg['reals'] > 0:
                    out.append(self.real_lit())
                else:
                    out.append(self.g(c2, p.typ, d))
            elif p.kind == 'arr':
                want = p.size
                av = self.vars(c, 'arr', None, lambda a: a.size is not None and list(a.size) == list(want) and
                               (a.typ == p.typ or (p.mode == 'value' and a.typ != 'b' and p.typ != 'b' and not a.spec == 'formalconv')))
                if not av:
                    return None
                out.append(('arrp', r.choice(av)))
            elif p.kind == 'proc':
                av = [x for x in c.visible() if x.kind == 'proc' and x.sig in (p.local, 'formal:' + str(p.local)) and x.typ == p.typ]
                if not av:
                    return None
                out.append(('proc', r.choice(av)))
            elif p.kind == 'label':
                av = self.vars(c, 'label')
                if not av:
                    return None
                x = r.random()
                sw = self.vars(c, 'switch')
                if x < .15 and sw:
                    s = r.choice(sw)
                    out.append(('sw', s, ilit(r.randint(1, s.size))))
                elif x < .3:
                    out.append(('dif', self.gb(c2, 1), ('label', r.choice(av)), ('label', r.choice(av))))
                else:
                    out.append(('label', r.choice(av)))
            elif p.kind == 'string':
                fs = self.vars(c, 'string')
                if fs and r.random() < .4:
                    out.append(('strf', r.choice(fs)))
                else:
                    out.append(('str', self.text()))
        return out

    def text(self):
        r = self.rng
        n = r.randint(0, 14)
        return ''.join(r.choice('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-*/()=,.;: ') for _ in range(n)) \
            .replace('*', '×')

    # -- statements
    def mark(self):
        self.marks += 1
        return ilit(self.marks)

    def pr(self, c):
        r = self.rng
        typ = 'r' if self.p('reals') and r.random() < .5 else 'i'
        es = [self.mark()]
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            if r.random() < .12 and self.p('bools'):
                es.append(('if', self.gb(c, 2), ilit(1), ilit(0)))
            else:
                vs = self.readable(c, typ)
                es.append(('var', r.choice(vs)) if vs and r.random() < .5 else self.g(c, typ, self.cfg['edepth'] - 1))
        return [('print', es), ('nlcr',)]

    def reduced_i(self, e):
        """Keep stored integers small: e - e/1000*1000 needs e twice, so only for variables."""
        return e

    def assign(self, c):
        r = self.rng
        x = r.random()
        typ = 'i' if x < 1 - self.cfg['reals'] - self.cfg['bools'] / 2 else ('r' if x < 1 - self.cfg['bools'] / 2 else 'b')
        ok = lambda v: not v.nowrite and (v.mode != 'name' or v.assigned)
        targets = []
        n = r.choice([1, 1, 1, 1, 2, 3])
        for _ in range(n):
            vs = self.vars(c, 'var', typ, ok)
            e = self.g_elem(c, typ, 1) if r.random() < self.cfg['arrays'] else None
            if e:
                targets.append(e)
            elif vs:
                targets.append(('var', r.choice(vs)))
        if self.opened and r.random() < .12:
            fs = [h for h in self.opened if h.typ == typ and any(d is h for d in c.visible())]
            if fs:
                targets.insert(r.randrange(len(targets) + 1), ('fres', r.choice(fs)))
        if not targets:
            return self.pr(c)
        if any(t[0] == 'fres' for t in targets):
            return [('assign', targets, self.g(c, typ, self.cfg['edepth']))]
        if typ == 'i' and r.random() < .12 and self.cfg['reals'] > 0:
            # transfer real -> integer, bounded
            vs = self.readable(c, 'r')
            v = ('var', r.choice(vs)) if vs else self.real_lit()
            return [('assign', targets[:1], ('if', ('rel', '<', ('std', 'abs', v), ilit(100000)), v, self.real_lit()))]
        if typ == 'r' and r.random() < .15:
            return [('assign', targets[:1], self.gi(c, 2))]
        e = self.g(c, typ, self.cfg['edepth'])
        out = [('assign', targets, e)]
        if typ == 'i' and r.random() < .6:
            for t in targets[:1]:
                if t[0] == 'var':
                    m = r.choice([100, 1000, 97])
                    out.append(('assign', [t], ('bin', '-', t, ('bin', '×', ('bin', '÷', t, ilit(m)), ilit(m)))))
        if typ == 'r' and r.random() < .5:
            for t in targets[:1]:
                if t[0] == 'var':
                    out.append(('if', ('rel', '>', ('std', 'abs', t), ('num', N.from_int(1000), '1000.0')),
                                ('assign', [t], ('bin', '/', t, ('num', N.from_int(1024), '1024.0'))), None))
        return out

    def goto(self, c):
        r = self.rng
        g = getattr(self, 'G', None)
        if g is None or not any(d is g for d in c.visible()):
            return self.assign(c)
        ls = self.vars(c, 'label')
        if not ls:
            return self.assign(c)
        x = r.random()
        sw = self.vars(c, 'switch')
        if sw and x < self.cfg['switches'] * .6:
            s = r.choice(sw)
            if r.random() < .7:
                des = ('sw', s, ilit(r.randint(1, s.size)))
            else:
                vs = self.readable(c, 'i')
                e = ilit(1)
                if vs:
                    v = ('var', r.choice(vs))
                    e = ('if', ('bop', '∧', ('rel', '≥', v, ilit(1)), ('rel', '≤', v, ilit(s.size))), v, ilit(1))
                des = ('sw', s, e)
        elif x < .75:
            des = ('dif', self.gb(c, 1), ('label', r.choice(ls)), ('label', r.choice(ls))) if r.random() < .25 else ('label', r.choice(ls))
        else:
            des = ('label', r.choice(ls))
        st = ('comp', [('assign', [('var', g)], ('bin', '-', ('var', g), ilit(1))), ('goto', des)])
        cond = ('rel', '>', ('var', g), ilit(0))
        if r.random() < .6:
            cond = ('bop', '∧', cond, self.gb(c, 1))
        return [('if', cond, st, None)]

    def for_(self, c, depth):
        r = self.rng
        vs = self.vars(c, 'var', None, lambda v: v.spec == 'loop' and v.local is c.proc and v.size == c.pblocks and
                       all(v is not l[0] for l in c.loops))
        if not vs:
            return self.assign(c)
        v = r.choice(vs)
        elems = []
        lo, hi = 10 ** 6, -10 ** 6
        isr = v.typ == 'r'
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            x = r.random()
            a = r.randint(-3, 6)
            if x < .25:
                elems.append(('e', self.small(a)))
                lo, hi = min(lo, a), max(hi, a)
            elif x < .40:
                # k, k+s while k < m   (first value from a plain element)
                s = r.randint(1, 3)
                b = a + r.randint(-1, 6)
                elems.append(('e', self.small(a)))
                lo, hi = min(lo, a), max(hi, a)
                cond = ('rel', '<', ('var', v), self.small(b))
                if r.random() < .3:
                    cond = ('bop', '∧', cond, self.gb(c, 1))
                elems.append(('while', ('bin', '+', ('var', v), ilit(s)), cond))
                hi = max(hi, b - 1)
            else:
                s = r.choice([1, 1, 1, 2, 3, -1, -2])
                b = a + s * r.randint(-1, 5) + r.choice([0, 0, 1])
                step = self.small(s)
                if r.random() < .15:
                    # a step expression that is not a constant
                    step = ('if', self.gb_const(c), self.small(s), self.small(s))
                lim = self.small(b)
                lv = [x for x in self.readable(c, 'i') if x.spec == 'const']
                if s > 0 and lv and r.random() < .25:
                    q = r.choice(lv)
                    b = q.size
                    if b - a > 12:
                        a = b - r.randint(0, 6)
                    lim = ('var', q)
                elems.append(('step', self.small(a), step, lim))
                if s > 0 and b >= a or s < 0 and b <= a:
                    lo, hi = min(lo, a, b), max(hi, a, b)
        if isr:
            lo = hi = None
        c2 = c.push([])
        if lo is not None and lo <= hi:
            c2.loops = c.loops + [(v, lo, hi)]
        else:
            c2.loops = c.loops + [(v, 10 ** 6, 10 ** 6)]
        c2.pblocks = c.pblocks
        # nested for statements and labels inside the body: their scope is the body
        labs = []
        if self.p(self.cfg['labels'] * .4):
            used = set()
            labs.append(D('label', self.name(used, self.outer_names(c2)), local=c.proc))
            c2.scopes = c2.scopes + [labs]
        body = self.seq(c2, depth - 1, r.randint(1, 3))
        body = self.place(labs, body)
        b = ('comp', body) if len(body) > 1 or labs or r.random() < .5 else body[0]
        if b[0] == 'if' and b[3] is None:
            b = ('comp', [b])
        return [('for', ('var', v), elems, b), ('assign', [('var', v)], ilit(r.randint(0, 3)))]

    def gb_const(self, c):
        vs = self.readable(c, 'b')
        return ('var', self.rng.choice(vs)) if vs else ('bool', True)

    def place(self, labs, stmts, lo=0):
        stmts = list(stmts)
        for l in labs:
            i = self.rng.randint(lo, len(stmts))
            if i == len(stmts):
                stmts.append(('lbl', l, ('dummy',)))
            else:
                stmts[i] = ('lbl', l, stmts[i])
        return stmts

    def seq(self, c, depth, n):
        out = []
        for _ in range(n):
            out.extend(self.st(c, depth))
        return out or [('dummy',)]

    def st(self, c, depth):
        r = self.rng
        self.budget -= 1
        if depth <= 0 or self.budget < 0:
            return self.assign(c) if r.random() < .6 else self.pr(c)
        cf = self.cfg
        ch = [('assign', 3.0), ('print', 2.0), ('if', 1.2), ('for', cf['fors']), ('goto', cf['gotos']), ('block', cf['blocks']),
              ('pcall', cf['calls']), ('text', cf['text']), ('comp', .2), ('libsum', cf['libsum'])]
        tot = sum(w for _, w in ch)
        x = r.random() * tot
        for k, w in ch:
            x -= w
            if x < 0:
                break
        if k == 'assign':
            return self.assign(c)
        if k == 'print':
            return self.pr(c)
        if k == 'if':
            a = self.as_one(self.seq(c, depth - 1, r.randint(1, 2)))
            b = self.as_one(self.seq(c, depth - 1, r.randint(1, 2))) if r.random() < .5 else None
            return [('if', self.gb(c, 2), a, b)]
        if k == 'for':
            return self.for_(c, depth)
        if k == 'goto':
            return self.goto(c)
        if k == 'block':
            if c.blkdepth >= self.cfg['maxblk']:
                return self.assign(c)
            return [('block', self.block(c, depth - 1))]
        if k == 'pcall':
            return self.pcall(c)
        if k == 'text':
            fs = self.vars(c, 'string')
            if fs and r.random() < .7:
                return [('text', ('strf', r.choice(fs)))]
            return [('text', ('str', self.text()))]
        if k == 'comp':
            return [('comp', self.seq(c, depth - 1, r.randint(1, 3)))]
        if k == 'libsum':
            vs = self.vars(c, 'var', 'i', lambda v: v.spec == 'loop' and v.local is c.proc and v.size == c.pblocks and
                           all(v is not l[0] for l in c.loops))
            ts = self.vars(c, 'var', 'r', lambda v: not v.nowrite and v.mode != 'name')
            if vs and ts:
                v = r.choice(vs)
                lo = r.randint(-2, 3)
                hi = lo + r.randint(0, 6)
                c2 = c.push([])
                c2.loops = c.loops + [(v, lo, hi)]
                return [('assign', [('var', r.choice(ts))], ('sum', ('var', v), self.small(lo), self.small(hi),
                                                            self.g(c2, r.choice('ir'), 2))),
                        ('assign', [('var', v)], ilit(0))]
            return self.assign(c)
        return self.assign(c)

    def as_one(self, l):
        if len(l) == 1 and l[0][0] not in ('if', 'lbl'):
            return l[0]
        return ('comp', l)

    def pcall(self, c):
        r = self.rng
        ps = [x for x in c.visible() if self.callable_(c, x) and (x.typ is None or x.sig != 'formal' and r.random() < .15 and x.typ is None)]
        if not ps:
            return self.assign(c)
        f = r.choice(ps)
        a = self.args(c, f, 2)
        if a is None:
            return self.assign(c)
        return [('pcall', f, a)]

    # -- declarations
    def block(self, c, depth, top=False):
        r = self.rng
        b = Block()
        used = set()
        outer = self.outer_names(c)
        scope = []
        c2 = c.push(scope)
        c2.blkdepth = c.blkdepth + 1
        c2.pblocks = c.pblocks + 1
        init = []
        if top:
            self.G = D('var', self.name(used, outer), 'i', nowrite=True, local=c.proc)
            b.decls.append(self.G)
            scope.append(self.G)
            init.append(('assign', [('var', self.G)], ilit(r.randint(3, 14))))
        oarr = []
        if top:
            # flags by which the blocks with own variables see that they are entered for the first time
            self.oflags = []
            for _ in range(r.randint(1, 4) if self.p('own') else 0):
                d = D('var', self.name(used, outer), 'i', nowrite=True, local=c.proc)
                b.decls.append(d)
                scope.append(d)
                init.append(('assign', [('var', d)], ilit(0)))
                self.oflags.append(d)
        else:
            first, oarr = self.own(c2, b, scope, used, outer)
            init.extend(first)
        nv = r.randint(2, 5) if top else r.randint(1, 3)
        for _ in range(nv):
            x = r.random()
            typ = 'r' if self.p('reals') else ('b' if self.p('bools') else 'i')
            d = D('var', self.name(used, outer), typ, local=c.proc)
            b.decls.append(d)
            scope.append(d)
            e = {'i': self.int_lit, 'r': self.real_lit, 'b': lambda: ('bool', r.random() < .5)}[typ]()
            if typ == 'i' and r.random() < .2:
                d.spec = 'const'
                d.nowrite = True
                v = r.randint(0, 6)
                d.size = v
                e = ilit(v)
            init.append(('assign', [('var', d)], e))
        # loop variables
        for _ in range(r.randint(1, 2)):
            typ = 'r' if r.random() < .15 * self.cfg['reals'] * 2 else 'i'
            d = D('var', self.name(used, outer), typ, nowrite=True, spec='loop', local=c.proc, size=c2.pblocks)
            b.decls.append(d)
            scope.append(d)
            init.append(('assign', [('var', d)], ilit(r.randint(0, 3))))
        # arrays
        b.decls.extend(oarr)
        if self.p('arrays'):
            for _ in range(r.randint(1, 2)):
                nd = r.choice([1, 1, 1, 2, 2, 3])
                size = []
                for _ in range(nd):
                    lo = r.choice([0, 1, 1, -2, -1, 3, -10])
                    size.append((lo, lo + r.randint(0, 4)))
                typ = r.choice('iiirrb') if self.cfg['reals'] > 0 else r.choice('iiib')
                bounds = []
                consts = [x for x in c.visible() if x.spec == 'const' and x.kind == 'var' and key(x.name) not in used]
                for k, (lo, hi) in enumerate(size):
                    hb = self.small(hi)
                    if not top and consts and r.random() < .35:
                        q = r.choice(consts)
                        used.add(key(q.name))
                        if q.size >= lo and q.size - lo < 8:
                            hb = ('var', q)
                            size[k] = (lo, q.size)
                    bounds.append((self.small(lo), hb))
                ds = []
                for _ in range(r.choice([1, 1, 2])):
                    d = D('arr', self.name(used, outer), typ, bounds=bounds, ndim=nd, size=size)
                    if typ == 'r' and r.random() < .5:
                        d.spec = 'plain'
                    ds.append(d)
                if len(ds) == 2:
                    ds[1].spec = ds[0].spec
                b.decls.extend(ds)
                # initialise with loops over fresh variables: use a straight-line init for small arrays
                for d in ds:
                    scope.append(d)
                    init.extend(self.init_arr(c2, d, b, used, outer, scope))
        # labels
        labs = []
        if self.p('labels') or top:
            for _ in range(r.randint(1, 2)):
                labs.append(D('label', self.name(used, outer), local=c.proc))
        scope.extend(labs)
        b.labels = labs
        # switches (after labels, may use them and outer labels)
        if labs and self.p('switches'):
            ls = self.vars(c2, 'label')
            # no recursion through switches: elements are labels or conditionals over labels
            els = []
            for _ in range(r.randint(1, 4)):
                if r.random() < .2:
                    els.append(('dif', self.gb(c2, 1), ('label', r.choice(ls)), ('label', r.choice(ls))))
                else:
                    els.append(('label', r.choice(ls)))
            s = D('switch', self.name(used, outer), elems=els, size=len(els))
            scope.append(s)
            b.decls.append(s)
        # procedures
        np = 0
        if top:
            np = r.randint(1, self.cfg['procs']) if self.cfg['procs'] else 0
        elif c.blkdepth < 4 and r.random() < .25 and self.cfg['procs']:
            np = 1
        heads = []
        for _ in range(np):
            heads.append(self.head(c2, used, outer))
        for h in heads:
            scope.append(h)
        for h in heads:
            self.body(c2, h, depth)
            b.decls.append(h)
        n = r.randint(2, 4) if not top else r.randint(4, 9)
        stmts = self.seq(c2, depth, n)
        if top:
            stmts.extend(self.pr(c2))
        b.stmts = init + self.place(labs, stmts)
        return b

    def own(self, c, b, scope, used, outer):
        """Own variables (and arrays) of a block, and the statement that sets them when the block is entered for the first time."""
        r = self.rng
        if not self.oflags or r.random() < .5:
            return [], []
        flag = self.oflags[-1]
        if not any(d is flag for d in c.visible()) or key(flag.name) in used:
            return [], []
        self.oflags.pop()
        used.add(key(flag.name))
        st = [('assign', [('var', flag)], ilit(1))]
        for _ in range(r.randint(1, 3)):
            typ = r.choice('iir') if self.cfg['reals'] > 0 else 'i'
            if self.p('bools'):
                typ = 'b'
            d = D('var', self.name(used, outer), typ, own=True, local=c.proc)
            b.decls.append(d)
            scope.append(d)
            st.append(('assign', [('var', d)], {'i': self.int_lit, 'r': self.real_lit, 'b': lambda: ('bool', r.random() < .5)}[typ]()))
        arr = []
        for _ in range(r.randint(1, 2) if self.p('arrays') and r.random() < .6 else 0):
            lo = r.choice([0, 1, 1, -2, -1, 3, -10])
            size = [(lo, lo + r.randint(0, 3))] + ([(1, 2)] if r.random() < .2 else [])
            d = D('arr', self.name(used, outer), r.choice('iir') if self.cfg['reals'] > 0 else 'i', own=True, ndim=len(size), size=size)
            d.bounds = [(self.small(x), self.small(y)) for x, y in size]
            arr.append(d)
            scope.append(d)
            for k in range(size[0][0], size[0][1] + 1):
                for l in range(*([1, 3] if len(size) > 1 else [0, 1])):
                    st.append(('assign', [('idx', d, [self.small(x) for x in ([k, l] if len(size) > 1 else [k])])], self.int_lit() if d.typ == 'i' else self.real_lit()))
        r.shuffle(st)
        return [('if', ('rel', '=', ('var', flag), ilit(0)), ('comp', st), None)], arr

    def init_arr(self, c, d, b, used, outer, scope):
        r = self.rng
        vs = [x for x in scope if x.spec == 'loop' and x.typ == 'i' and x.kind == 'var']
        tot = 1
        for lo, hi in d.size:
            tot *= hi - lo + 1
        if d.typ == 'b':
            val = lambda: ('bool', r.random() < .5)
        elif d.typ == 'i':
            val = self.int_lit
        else:
            val = self.real_lit
        if tot > 4 and len(vs) < len(d.size):
            while len(vs) < len(d.size):
                v = D('var', self.name(used, outer), 'i', nowrite=True, spec='loop', local=c.proc, size=c.pblocks)
                b.decls.insert(0, v)
                scope.append(v)
                vs.append(v)
        if tot > 4:
            vs = vs[:len(d.size)]
            idx = [('var', v) for v in vs]
            if d.typ == 'i':
                e = val()
                for k, v in enumerate(vs):
                    e = ('bin', '+', e, ('bin', '×', ('var', v), ilit([1, 7, 31][k])))
            elif d.typ == 'r':
                e = val()
                for k, v in enumerate(vs):
                    e = ('bin', '+', e, ('bin', '/', ('var', v), ilit([2, 8, 3][k])))
            else:
                e = ('rel', '<', ('var', vs[0]), ilit(2))
            s = ('assign', [('idx', d, idx)], e)
            for v, (lo, hi), (_, hb) in zip(vs, d.size, d.bounds):
                s = ('for', ('var', v), [('step', self.small(lo), ilit(1), hb)], s)
            return [s] + [('assign', [('var', v)], ilit(1)) for v in vs]
        out = []
        import itertools
        for pos in itertools.product(*[range(lo, hi + 1) for lo, hi in d.size]):
            out.append(('assign', [('idx', d, [self.small(x) for x in pos])], val()))
        return out

    SIGS = {1: [('i', 'value')], 2: [('i', 'name')], 3: [('i', 'value'), ('r', 'name')], 4: []}

    def head(self, c, used, outer):
        r = self.rng
        typ = r.choice(['i', 'i', 'r', None, None, 'b']) if self.cfg['reals'] > 0 else r.choice(['i', 'i', None, None, 'b'])
        h = D('proc', self.name(used, outer), typ, local=c.proc)
        h.level = 100
        h.params = []
        pu = {key(h.name)}
        sig = None
        if self.p('procparams') and r.random() < .6:
            # a procedure with a fixed signature: may be passed as a parameter
            sig = r.choice([1, 2, 3, 4])
            for t, m in self.SIGS[sig]:
                if t == 'r' and self.cfg['reals'] == 0:
                    t = 'i'
                h.params.append(D('var', self.name(pu, outer), t, mode=m, nowrite=False))
            h.sig = sig
            h.depth = 2
        else:
            if self.p('recursion'):
                h.params.append(D('var', self.name(pu, outer), 'i', mode='value', spec='depth', nowrite=True))
                h.depth = 1
            else:
                h.depth = 2
            for _ in range(r.randint(0, 3)):
                x = r.random()
                if x < .10 + .25 * self.cfg['procparams'] and self.cfg['procparams'] > 0 and r.random() < .5:
                    q = r.choice([1, 2, 4])
                    fp = D('proc', self.name(pu, outer), r.choice(['i', None, 'i']), sig='formal', mode='name')
                    fp.params = [D('var', 'x', t, mode=m) for t, m in self.SIGS[q]]
                    fp.local = q
                    h.params.append(fp)
                elif x < .35 and self.p('labels') and self.cfg['gotos'] > 0:
                    h.params.append(D('label', self.name(pu, outer), mode='name'))
                elif x < .5 and self.p('arrays'):
                    av = self.vars(c, 'arr', None, lambda a: a.size is not None)
                    if av:
                        a = r.choice(av)
                        m = 'value' if self.p(self.cfg['values'] * 2) and a.typ != 'b' else 'name'
                        t = a.typ
                        if m == 'value' and r.random() < .3 and self.cfg['reals'] > 0:
                            t = 'i' if t == 'r' else 'r'
                        d = D('arr', self.name(pu, outer), t, mode=m, ndim=a.ndim, size=list(a.size))
                        if t == 'r' and r.random() < .5:
                            d.spec = 'plain'
                        h.params.append(d)
                elif x < .58 and self.p('text'):
                    h.params.append(D('string', self.name(pu, outer), mode='name'))
                else:
                    t = 'r' if self.p('reals') else ('b' if self.p('bools') else 'i')
                    m = 'name' if self.p('byname') else 'value'
                    d = D('var', self.name(pu, outer), t, mode=m)
                    d.assigned = m == 'name' and r.random() < .4
                    h.params.append(d)
        return h

    def body(self, c, h, depth):
        r = self.rng
        self.level = getattr(self, 'level', 0) + 1
        h.level = self.level
        self.opened.append(h)
        scope = list(h.params)
        c2 = c.push([h])
        c2 = c2.push(scope)
        c2.proc = h
        c2.loops = []
        c2.guard = None
        c2.pblocks = 0
        c2.blkdepth = c.blkdepth + 1
        dp = [p for p in h.params if p.spec == 'depth']
        blk = Block()
        # formal parameters and the locals of the body share one scope; the procedure's own name stays usable in it
        used = {key(h.name)} | {key(p.name) for p in h.params}
        outer = self.outer_names(c2)
        bs = []
        b = blk
        c3 = c2.push(bs)
        c3.pblocks = 1
        stm = []
        for _ in range(r.randint(0, 2)):
            typ = 'r' if self.p('reals') else 'i'
            d = D('var', self.name(used, outer), typ, local=h)
            b.decls.append(d)
            bs.append(d)
            stm.append(('assign', [('var', d)], self.int_lit() if typ == 'i' else self.real_lit()))
        first, oarr = self.own(c3, b, bs, used, outer)
        stm.extend(first)
        if r.random() < .5:
            d = D('var', self.name(used, outer), 'i', nowrite=True, spec='loop', local=h, size=1)
            b.decls.append(d)
            bs.append(d)
            stm.append(('assign', [('var', d)], ilit(1)))
        b.decls.extend(oarr)
        labs = []
        if self.p(self.cfg['labels'] * .6):
            labs.append(D('label', self.name(used, outer), local=h))
            bs.extend(labs)
            b.labels = labs
        # a nested procedure sometimes
        if r.random() < .2 and c.blkdepth < 3 and self.level < 9:
            nh = self.head(c3, used, outer)
            bs.append(nh)
            self.body(c3, nh, depth - 1)
            b.decls.append(nh)
        save = self.budget
        self.budget = max(4, self.cfg['size'] // 3)
        work = self.seq(c3, max(1, depth - 1), r.randint(1, 3))
        if dp:
            c4 = c3.push([])
            c4.guard = dp[0]
            rec = self.seq(c4, max(1, depth - 1), r.randint(1, 2))
            work.append(('if', ('rel', '>', ('var', dp[0]), ilit(0)), ('comp', rec), None))
        self.budget = save
        labelled = self.place(labs, work)
        if h.typ:
            cr = c3.push([])
            if dp and r.random() < .7:
                cr.guard = dp[0]
                e = ('if', ('rel', '>', ('var', dp[0]), ilit(0)), self.g(cr, h.typ, 2), self.g(c3, h.typ, 1))
                if h.typ == 'b':
                    pass
            else:
                e = self.g(c3, h.typ, 2)
            res = ('assign', [('fres', h)], e)
            x = r.random()
            if x < .7:
                labelled.append(res)
            else:
                # value assigned at the start, so that leaving early is fine too
                labelled.insert(0, ('assign', [('fres', h)], self.g(c3, h.typ, 0)))
                if r.random() < .5:
                    labelled.append(res)
        b.stmts = stm + labelled
        if not b.decls and not b.labels and len(b.stmts) == 1:
            h.body = b.stmts[0]
        elif not b.decls and not b.labels:
            h.body = ('comp', b.stmts)
        else:
            h.body = ('block', b)
        self.opened.pop()

    def program(self):
        c = Ctx()
        return self.block(c, self.cfg['depth'], top=True)


def make(seed, **cfg):
    """(Block, expected stdout, ok, events) or None when the program is not a usable test."""
    max_steps = cfg.pop('max_steps', 30000)
    g = Gen(seed, **cfg)
    b = g.program()
    if not well_scoped(b):
        return None, 'a name is hidden by an inner declaration'
    ev = {}
    it = Interp(max_steps=max_steps, events=ev)
    try:
        out, ok = it.run(b)
    except Discard as x:
        return None, str(x)
    return (b, out, ok, ev), None
