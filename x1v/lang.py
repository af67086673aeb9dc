"""Algol 60 subset: AST, reference interpreter, token emitter.

Expressions are tuples, declarations are D objects.  The interpreter implements the Algol 60 report's
meaning over the number model of num.py; it knows nothing about the compiler or the simulator.
"""
from . import num as N
from .num import R, X1Error


class Discard(Exception):
    """The program strays outside what the reference defines (or is too long): not a test case."""


class Goto(Exception):
    def __init__(self, label, frame, depth=0):
        self.label = label
        self.frame = frame
        self.depth = depth


class StopProgram(Exception):
    pass


class D:
    """A declaration. kind: var arr proc label switch string"""
    __slots__ = ("kind", "typ", "name", "mode", "params", "body", "bounds", "ndim", "assigned", "nowrite",
                 "own", "elems", "sig", "depth", "level", "local", "size", "spec", "join")

    def __init__(self, kind, name, typ=None, **kw):
        self.kind, self.name, self.typ = kind, name, typ
        self.mode = self.params = self.body = self.bounds = self.ndim = None
        self.assigned = self.nowrite = self.own = False
        self.elems = self.sig = None
        self.depth = self.level = 0
        self.local = None
        self.size = None
        self.spec = None
        self.join = False       # array: declared in the same declaration as the one before it
        for k, v in kw.items():
            setattr(self, k, v)

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.name)


class Fr:
    __slots__ = ("parent", "vars")

    def __init__(self, parent):
        self.parent = parent
        self.vars = {}

    def find(self, d):
        f = self
        while f is not None:
            b = f.vars.get(d)
            if b is not None:
                return b
            f = f.parent
        raise KeyError(d.name)

    def owner(self, d):
        f = self
        while f is not None:
            if d in f.vars:
                return f
            f = f.parent
        raise KeyError(d.name)


class Cell:
    __slots__ = ("v", "typ")

    def __init__(self, typ, v=None):
        self.typ, self.v = typ, v

    def get(self):
        if self.v is None:
            raise Discard("uninitialised")
        return self.v

    def set(self, v):
        self.v = conv(self.typ, v)


def conv(typ, v):
    if typ == 'i':
        return N.to_int(v)
    if typ == 'r':
        return N.to_real(v)
    return v


class Arr:
    __slots__ = ("typ", "bounds", "data", "strides", "total", "base")

    def __init__(self, typ, bounds):
        self.typ, self.bounds = typ, bounds
        self.strides = []
        s = 1
        base = 0
        for lo, hi in bounds:
            if hi < lo:
                raise Discard("empty array")
            self.strides.append(s)
            base += s * lo
            s *= hi - lo + 1
        self.total = s
        self.base = base
        if s > 4000:
            raise Discard("big array")
        self.data = [None] * s

    def ref(self, idx):
        if len(idx) != len(self.bounds):
            raise Discard("subscript count")
        lin = sum(a * b for a, b in zip(idx, self.strides)) - self.base
        inb = all(lo <= i <= hi for i, (lo, hi) in zip(idx, self.bounds))
        if not inb:
            if 0 <= lin < self.total:
                raise Discard("subscript outside its own bound, inside the storage")
            x = X1Error("subscript out of bounds")
            if len(idx) == 1:
                x.detail = (idx[0],) + tuple(self.bounds[0])
            raise x
        return Elem(self, lin)


class Elem:
    __slots__ = ("a", "i")

    def __init__(self, a, i):
        self.a, self.i = a, i

    @property
    def typ(self):
        return self.a.typ

    def get(self):
        v = self.a.data[self.i]
        if v is None:
            raise Discard("uninitialised")
        return v

    def set(self, v):
        self.a.data[self.i] = conv(self.a.typ, v)


class Thunk:
    __slots__ = ("e", "fr")

    def __init__(self, e, fr):
        self.e, self.fr = e, fr


class Closure:
    __slots__ = ("d", "fr")

    def __init__(self, d, fr):
        self.d, self.fr = d, fr


class SwitchB:
    __slots__ = ("d", "fr")

    def __init__(self, d, fr):
        self.d, self.fr = d, fr


class LabelB:
    __slots__ = ("d", "fr")

    def __init__(self, d, fr):
        self.d, self.fr = d, fr


STDF = {'abs': N.abs_, 'sign': N.sign, 'entier': N.floor_, 'sqrt': N.isqrt_real}


class Interp:
    def __init__(self, max_steps=60000, inp=None, max_depth=60, events=None):
        self.out = []
        self.steps = 0
        self.max_steps = max_steps
        self.depth = 0
        self.max_depth = max_depth
        self.inp = inp or []
        self.inpos = 0
        self.own = {}
        self.console = []
        self.word = None
        self.events = events if events is not None else {}

    def ev_count(self, k):
        self.events[k] = self.events.get(k, 0) + 1

    # -- expressions
    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Discard("too long")

    def ev(self, e, fr):
        self.tick()
        k = e[0]
        if k == 'num':
            return e[1]
        if k == 'var':
            b = fr.find(e[1])
            if type(b) is Cell:
                return b.get()
            return self.force(b)
        if k == 'bin':
            a = self.ev(e[2], fr)
            b = self.ev(e[3], fr)
            return self.arith(e[1], a, b)
        if k == 'neg':
            return N.neg(self.ev(e[1], fr))
        if k == 'pos':
            return self.ev(e[1], fr)
        if k == 'par':
            return self.ev(e[1], fr)
        if k == 'idx':
            return self.addr(e, fr).get()
        if k == 'call':
            r = self.call(e[1], e[2], fr)
            if r is None:
                raise Discard("function without value")
            return r
        if k == 'if':
            return self.ev(e[2] if self.ev(e[1], fr) else e[3], fr)
        if k == 'std':
            a = self.ev(e[2], fr)
            n = e[1]
            if n == 'abs':
                return N.abs_(a)
            if n == 'sign':
                return N.sign(a)
            if n == 'entier':
                return N.floor_(a)
            if n == 'sqrt':
                return N.isqrt_real(a)
            raise Discard(n)
        if k == 'even':
            a = self.ev(e[1], fr)
            if not N.is_int(a):
                raise Discard("EVEN of real")
            return 1 if a % 2 == 0 else -1
        if k == 'sum':
            return self.lib_sum(e, fr)
        if k == 'xeen':
            a = self.ev(e[1], fr)
            if not N.is_int(a):
                raise Discard("XEEN of real")
            return self.xeen(a)
        if k == 'read':
            if self.inpos >= len(self.inp):
                raise X1Error("no input")
            self.inpos += 1
            return self.inp[self.inpos - 1]
        # boolean
        if k == 'bool':
            return e[1]
        if k == 'rel':
            a = self.ev(e[2], fr)
            b = self.ev(e[3], fr)
            c = N.cmp_num(a, b)
            o = e[1]
            return {'<': c < 0, '≤': c <= 0, '=': c == 0, '≥': c >= 0, '>': c > 0, '≠': c != 0}[o]
        if k == 'not':
            return not self.ev(e[1], fr)
        if k == 'bop':
            a = self.ev(e[2], fr)
            b = self.ev(e[3], fr)
            o = e[1]
            if o == '∧':
                return a and b
            if o == '∨':
                return a or b
            if o == '⊃':
                return (not a) or b
            return a == b
        raise AssertionError(k)

    def arith(self, op, a, b):
        if op == '+':
            return N.add(a, b)
        if op == '-':
            return N.sub(a, b)
        if op == '×':
            return N.mul(a, b)
        if op == '/':
            return N.div(a, b)
        if op == '÷':
            return N.idiv(a, b)
        if op == '↑':
            if N.is_int(a) and N.is_int(b) and b >= 0:
                return N.ipow(a, b)
            if isinstance(a, R) and N.is_int(b) and 0 <= b <= 40 and (b or a.m):
                # only where the exact power fits 40 bits: repeated multiplication is then exact
                p = a.m ** b
                t = p & -p if p else 1
                if (abs(p) // t).bit_length() > 40:
                    raise Discard("inexact power")
                return N.mk(p, a.e * b)
            raise Discard("power")
        raise AssertionError(op)

    def xeen(self, n):
        """Bits of the console word, selected by n; negative numbers are the complement of positive ones, zero selects all."""
        if self.word is None:
            if not self.console:
                raise X1Error("no input")
            self.word = self.console.pop(0)
            self.ev_count('console word')
        m = (1 << 27) - 1
        a = m if n == 0 else n if n > 0 else ~-n & m
        w = self.word & a
        self.ev_count('xeen')
        self.ev_count('xeen:' + ('zero' if n == 0 else 'plus' if n > 0 else 'minus') + ('-negative' if w >> 26 else ''))
        return -(~w & m) if w >> 26 else w

    def lib_sum(self, e, fr):
        # SUM(i, a, b, x): sum of x for i = a step 1 until b
        lo = N.to_int(self.ev(e[2], fr))
        hi = N.to_int(self.ev(e[3], fr))
        self.addr(e[1], fr).set(lo)
        self.ev_count('sum')
        s = N.ZERO
        while True:
            self.tick()
            if N.cmp_num(self.addr(e[1], fr).get(), hi) > 0:
                break
            self.ev_count('sum-term')
            s = N.add(s, self.ev(e[4], fr))
            t = self.addr(e[1], fr)
            t.set(N.add(t.get(), 1))
        return s

    def force(self, b):
        if type(b) is Thunk:
            return self.ev(b.e, b.fr)
        if type(b) is Closure:          # parameterless function passed / called by name
            r = self.enter(b, [], None)
            if r is None:
                raise Discard("no value")
            return r
        raise AssertionError(b)

    def addr(self, e, fr):
        """Address (Cell or Elem) of a variable expression."""
        self.tick()
        if e[0] == 'var':
            b = fr.find(e[1])
            if type(b) is Cell:
                return b
            if type(b) is Thunk:
                return self.addr(b.e, b.fr)
            raise AssertionError(b)
        if e[0] == 'idx':
            a = self.array(e[1], fr)
            idx = [N.to_int(self.ev(x, fr)) for x in e[2]]
            self.ev_count('subscript')
            return a.ref(idx)
        raise Discard("assignment to an expression")

    def array(self, d, fr):
        b = fr.find(d)
        while type(b) is Thunk:
            b = b.fr.find(b.e[1])
        return b

    def lookup_through(self, d, fr):
        b = fr.find(d)
        while type(b) is Thunk and b.e[0] in ('proc', 'label', 'switch', 'strf'):
            b = b.fr.find(b.e[1])
        return b

    # -- procedures
    def call(self, d, args, fr):
        b = self.lookup_through(d, fr)
        if type(b) is Thunk:
            if b.e[0] == 'stdf':
                return self.std_call(b.e[1], [self.string(a, fr) if a[0] in ('str', 'strf') else self.ev(a, fr) for a in args])
            raise Discard("call of a non-procedure")
        return self.enter(b, args, fr)

    def string(self, a, fr):
        n = 0
        while a[0] != 'str':
            b = fr.find(a[1])
            a, fr = b.e, b.fr
            n += 1
        self.ev_count('string:%d' % min(n, 5))
        return a[1]

    def std_call(self, n, v):
        """A standard procedure that was passed as a parameter."""
        self.ev_count('standard procedure as parameter')
        if n == 'NLCR':
            self.out.append('\n')
        elif n == 'TAB':
            self.out.append('\t')
        elif n == 'SPACE':
            self.out.append(' ' * max(0, v[0]))
        elif n == 'print':
            self.out.append(N.fmt13(v[0]))
        elif n == 'PRINTTEXT':
            self.out.append(v[0])
            self.ev_count('text')
        elif n in STDF:
            return STDF[n](v[0])
        else:
            raise Discard(n)

    def enter(self, clo, args, fr):
        d = clo.d
        self.tick()
        if self.depth > self.max_depth:
            raise Discard("too deep")
        self.ev_count('call')
        new = Fr(clo.fr)
        if len(args) != len(d.params):
            raise Discard("parameter count")
        late = []
        for p, a in zip(d.params, args):
            new.vars[p] = Thunk(a, fr)
        self.depth += 1
        try:
            for p, a in zip(d.params, args):
                if p.mode == 'value':
                    if p.kind == 'arr':
                        src = self.array(a[1], fr)
                        c = Arr(p.typ, src.bounds)
                        if len(c.bounds) != p.ndim:
                            raise Discard("ndim")
                        for i, v in enumerate(src.data):
                            c.data[i] = None if v is None else conv(p.typ, v)
                        late.append((p, c))
                    else:
                        c = Cell(p.typ)
                        c.set(self.ev(a, fr))
                        late.append((p, c))
            for p, c in late:
                if p.kind == 'arr':
                    # the order in which value parameters are evaluated is not defined
                    src = self.array(new.vars[p].e[1], fr)
                    if [None if v is None else conv(p.typ, v) for v in src.data] != c.data:
                        raise Discard("array changed while value parameters are evaluated")
            for p, c in late:
                new.vars[p] = c
            res = Cell(d.typ) if d.typ else None
            new.vars[('res', d)] = res
            new.vars['procframe'] = d
            self.stmt(d.body, new)
            return res.v if res is not None else None
        finally:
            self.depth -= 1

    # -- statements
    def block(self, b, fr):
        new = Fr(fr)
        self.ev_count('block')
        for d in b.decls:
            if d.kind == 'var':
                if d.own:
                    self.ev_count('own variable')
                    c = self.own.get(d)
                    if c is None:
                        c = self.own[d] = Cell(d.typ)
                    new.vars[d] = c
                else:
                    new.vars[d] = Cell(d.typ)
            elif d.kind == 'proc':
                new.vars[d] = Closure(d, new)
            elif d.kind == 'switch':
                new.vars[d] = SwitchB(d, new)
        for l in b.labels:
            new.vars[l] = LabelB(l, new)
        groups = {}
        for d in b.decls:
            if d.kind == 'arr':
                if d.own and d in self.own:
                    self.ev_count('own array kept')
                    new.vars[d] = self.own[d]
                    continue
                key = id(d.bounds)
                if key not in groups:
                    # bounds are expressions over the enclosing scope
                    groups[key] = [(N.to_int(self.ev(lo, fr)), N.to_int(self.ev(hi, fr))) for lo, hi in d.bounds]
                new.vars[d] = Arr(d.typ, groups[key])
                if d.own:
                    self.own[d] = new.vars[d]
        self.region(b.stmts, new)

    def region(self, stmts, fr):
        i = 0
        n = len(stmts)
        where = None
        while i < n:
            try:
                while i < n:
                    self.stmt(stmts[i], fr)
                    i += 1
            except Goto as g:
                if where is None:
                    where = {}
                    for j, s in enumerate(stmts):
                        while s[0] == 'lbl':
                            where[s[1]] = j
                            s = s[2]
                j = where.get(g.label)
                if j is None or g.frame is not fr.owner(g.label):
                    raise
                self.ev_count('goto-landed')
                if g.depth > self.depth:
                    self.ev_count('goto out of a call')
                    if g.depth > self.depth + 2:
                        self.ev_count('goto out of many calls')
                i = j

    def stmt(self, s, fr):
        self.tick()
        k = s[0]
        if k == 'assign':
            addrs = []
            for t in s[1]:
                if t[0] == 'fres':
                    addrs.append(t)
                else:
                    addrs.append(self.addr(t, fr))
            v = self.ev(s[2], fr)
            for t in reversed(addrs):
                if type(t) is tuple:
                    fr.find(('res', t[1])).v = v
                    if len(addrs) > 1:
                        self.ev_count('result among several left parts')
                else:
                    t.set(v)
        elif k == 'print':
            vals = [self.ev(x, fr) for x in s[1]]
            self.out.append(' '.join(N.fmt13(v) for v in vals))
            self.ev_count('print')
        elif k == 'nlcr':
            self.out.append('\n')
        elif k == 'tab':
            self.out.append('\t')
        elif k == 'space':
            self.out.append(' ' * max(0, self.ev(s[1], fr)))
        elif k == 'text':
            self.out.append(self.string(s[1], fr))
            self.ev_count('text')
        elif k == 'if':
            if self.ev(s[1], fr):
                self.stmt(s[2], fr)
            elif s[3] is not None:
                self.stmt(s[3], fr)
        elif k == 'comp':
            self.region(s[1], fr)
        elif k == 'block':
            self.block(s[1], fr)
        elif k == 'lbl':
            self.stmt(s[2], fr)
        elif k == 'for':
            self.for_(s, fr)
        elif k == 'goto':
            self.goto(s[1], fr)
        elif k == 'pcall':
            self.call(s[1], s[2], fr)
        elif k == 'dummy':
            pass
        elif k == 'stop':
            self.word = None
        elif k == 'raw':        # ('raw', token list, callable(interp, frame))
            s[2](self, fr)
        else:
            raise AssertionError(k)

    def goto(self, d, fr):
        while True:
            self.tick()
            if d[0] == 'dif':
                d = d[2] if self.ev(d[1], fr) else d[3]
            elif d[0] == 'label':
                b = fr.find(d[1])
                if type(b) is Thunk:
                    d, fr = b.e, b.fr
                    continue
                self.ev_count('goto')
                raise Goto(b.d, b.fr, self.depth)
            elif d[0] == 'sw':
                b = fr.find(d[1])
                while type(b) is Thunk:
                    b = b.fr.find(b.e[1])
                i = N.to_int(self.ev(d[2], fr))
                if not 1 <= i <= len(b.d.elems):
                    raise Discard("switch index")
                self.ev_count('switch')
                d, fr = b.d.elems[i - 1], b.fr
            else:
                raise AssertionError(d)

    def for_(self, s, fr):
        _, var, elems, body = s
        bf = Fr(fr)
        for l in s_labels(body):
            bf.vars[l] = LabelB(l, bf)
        for el in elems:
            if el[0] == 'e':
                a = self.addr(var, fr)
                a.set(self.ev(el[1], fr))
                self.ev_count('for-expr')
                self.stmt(body, bf)
            elif el[0] == 'while':
                while True:
                    a = self.addr(var, fr)
                    a.set(self.ev(el[1], fr))
                    if not self.ev(el[2], fr):
                        break
                    self.ev_count('for-while')
                    self.stmt(body, bf)
            else:
                a = self.addr(var, fr)
                v = self.ev(el[1], fr)
                sg = N.sign(self.ev(el[2], fr))
                lim = self.ev(el[3], fr)
                a.set(v)
                while not (sg > 0 and N.cmp_num(a.get(), lim) > 0 or sg < 0 and N.cmp_num(a.get(), lim) < 0):
                    self.ev_count('for-step')
                    self.stmt(body, bf)
                    a = self.addr(var, fr)
                    st = self.ev(el[2], fr)
                    sg = N.sign(st)
                    v = N.add(a.get(), st)
                    lim = self.ev(el[3], fr)
                    a.set(v)

    def run(self, prog):
        """Returns (stdout text, ok). ok False: the program must stop with an error."""
        try:
            self.block(prog, None)
            return ''.join(self.out), True
        except X1Error as x:
            self.error = str(x)
            self.detail = getattr(x, "detail", None)
            return ''.join(self.out), False
        except StopProgram:
            return ''.join(self.out), True
        except RecursionError:
            raise Discard("python recursion")


def s_labels(body):
    """Labels whose scope is a for statement's body (body is a compound statement)."""
    if body[0] != 'comp':
        return []
    out = []
    for s in body[1]:
        while s[0] == 'lbl':
            out.append(s[1])
            s = s[2]
    return out


class Block:
    __slots__ = ("decls", "labels", "stmts")

    def __init__(self):
        self.decls, self.labels, self.stmts = [], [], []


# ---------------------------------------------------------------- emission
# tokens: ('w', word) ('id', name) ('n', text) ('s', string) ('o', operator) ('nl',)
PREC = {'↑': 9, '×': 8, '/': 8, '÷': 8, '+': 7, '-': 7, '<': 6, '≤': 6, '=': 6, '≥': 6, '>': 6, '≠': 6,
        'not': 5, '∧': 4, '∨': 3, '⊃': 2, '≡': 1}


class Emit:
    def __init__(self, full_parens=False):
        self.t = []

    def w(self, x):
        self.t.append(('w', x))

    def o(self, x):
        self.t.append(('o', x))

    def id(self, x):
        self.t.append(('id', x))

    def prec(self, e):
        k = e[0]
        if k == 'bin' or k == 'rel' or k == 'bop':
            return PREC[e[1]]
        if k in ('neg', 'pos'):
            return 7
        if k == 'num':
            v = e[1]
            return 10
        if k == 'if':
            return 0
        if k == 'not':
            return 5
        return 10

    def sub(self, e, minp, first=False):
        p = self.prec(e)
        if p < minp or (e[0] in ('neg', 'pos') and not first):
            self.o('(')
            self.expr(e)
            self.o(')')
        else:
            self.expr(e, first)

    def expr(self, e, first=True):
        k = e[0]
        if k == 'num':
            self.t.append(('n', e[2] if len(e) > 2 else N.fmt13(e[1])))
        elif k == 'var':
            self.id(e[1].name)
        elif k == 'par':
            self.o('(')
            self.expr(e[1])
            self.o(')')
        elif k in ('bin', 'bop', 'rel'):
            p = PREC[e[1]]
            self.sub(e[2], p if k != 'rel' else 7, first)
            self.o(e[1])
            self.sub(e[3], p + 1)
        elif k in ('neg', 'pos'):
            self.o('-' if k == 'neg' else '+')
            self.sub(e[1], 8)
        elif k == 'idx':
            self.id(e[1].name)
            self.o('[')
            self.elist(e[2])
            self.o(']')
        elif k == 'call':
            self.id(e[1].name)
            if e[2]:
                self.o('(')
                self.alist(e[2])
                self.o(')')
        elif k == 'if':
            self.w('if')
            self.expr(e[1])
            self.w('then')
            self.sub(e[2], 1, True)
            self.w('else')
            self.expr(e[3])
        elif k == 'std':
            self.id(e[1])
            self.o('(')
            self.expr(e[2])
            self.o(')')
        elif k == 'even':
            self.id('EVEN')
            self.o('(')
            self.expr(e[1])
            self.o(')')
        elif k == 'xeen':
            self.id('XEEN')
            self.o('(')
            self.expr(e[1])
            self.o(')')
        elif k == 'sum':
            self.id('SUM')
            self.o('(')
            self.elist(e[1:])
            self.o(')')
        elif k == 'read':
            self.id('read')
        elif k == 'bool':
            self.w('true' if e[1] else 'false')
        elif k == 'not':
            self.o('¬')
            self.sub(e[1], 5 if e[1][0] != 'not' else 6)
        else:
            raise AssertionError(k)

    def elist(self, l):
        for i, x in enumerate(l):
            if i:
                self.o(',')
            self.expr(x)

    def alist(self, l):
        for i, x in enumerate(l):
            if i:
                self.o(',')
            if x[0] in ('proc', 'strf', 'switch', 'arrp'):
                self.id(x[1].name)
            elif x[0] == 'stdf':
                self.id(x[1])
            elif x[0] in ('label', 'sw', 'dif'):
                self.desig(x)
            elif x[0] == 'str':
                self.t.append(('s', x[1]))
            else:
                self.expr(x)

    def desig(self, d):
        if d[0] == 'label':
            self.id(d[1].name)
        elif d[0] == 'sw':
            self.id(d[1].name)
            self.o('[')
            self.expr(d[2])
            self.o(']')
        else:
            self.w('if')
            self.expr(d[1])
            self.w('then')
            if d[2][0] == 'dif':
                self.o('(')
                self.desig(d[2])
                self.o(')')
            else:
                self.desig(d[2])
            self.w('else')
            self.desig(d[3])

    def nl(self):
        self.t.append(('nl',))

    def stmt(self, s, in_then=False):
        k = s[0]
        if k == 'assign':
            for t in s[1]:
                if t[0] == 'fres':
                    self.id(t[1].name)
                else:
                    self.expr(t)
                self.o(':=')
            self.expr(s[2])
        elif k == 'print':
            self.id('print')
            self.o('(')
            self.elist(s[1])
            self.o(')')
        elif k == 'nlcr':
            self.id('NLCR')
        elif k == 'tab':
            self.id('TAB')
        elif k == 'space':
            self.id('SPACE')
            self.o('(')
            self.expr(s[1])
            self.o(')')
        elif k == 'text':
            self.id('PRINTTEXT')
            self.o('(')
            self.alist([s[1]])
            self.o(')')
        elif k == 'if':
            self.w('if')
            self.expr(s[1])
            self.w('then')
            wrap = s[2][0] in ('if', 'for') or (s[2][0] == 'lbl')
            self.wrapped(s[2], wrap)
            if s[3] is not None:
                self.w('else')
                self.wrapped(s[3], False)
        elif k == 'comp':
            self.w('begin')
            self.stmts(s[1])
            self.w('end')
        elif k == 'block':
            self.block(s[1])
        elif k == 'lbl':
            self.id(s[1].name)
            self.o(':')
            self.stmt(s[2])
        elif k == 'for':
            self.w('for')
            self.expr(s[1])
            self.o(':=')
            for i, el in enumerate(s[2]):
                if i:
                    self.o(',')
                self.expr(el[1])
                if el[0] == 'while':
                    self.w('while')
                    self.expr(el[2])
                elif el[0] == 'step':
                    self.w('step')
                    self.expr(el[2])
                    self.w('until')
                    self.expr(el[3])
            self.w('do')
            self.stmt(s[3])
        elif k == 'goto':
            self.w('goto')
            self.desig(s[1])
        elif k == 'pcall':
            self.id(s[1].name)
            if s[2]:
                self.o('(')
                self.alist(s[2])
                self.o(')')
        elif k == 'dummy':
            pass
        elif k == 'stop':
            self.id('stop')
        elif k == 'raw':
            self.t.extend(s[1])
        else:
            raise AssertionError(k)

    def wrapped(self, s, wrap):
        if wrap:
            self.w('begin')
            self.stmt(s)
            self.w('end')
        else:
            self.stmt(s)

    def stmts(self, l):
        for i, s in enumerate(l):
            if i:
                self.o(';')
                self.nl()
            self.stmt(s)

    TYP = {'i': 'integer', 'r': 'real', 'b': 'Boolean'}

    def decl(self, d, group=None, cont=False, more=False):
        names = group or [d]
        if cont:
            self.o(',')
        if d.own and not cont:
            self.w('own')
        if d.kind == 'var':
            self.w(self.TYP[d.typ])
            for i, x in enumerate(names):
                if i:
                    self.o(',')
                self.id(x.name)
        elif d.kind == 'arr':
            if not cont:
                if not (d.typ == 'r' and d.spec == 'plain'):
                    self.w(self.TYP[d.typ])
                self.w('array')
            for i, x in enumerate(names):
                if i:
                    self.o(',')
                self.id(x.name)
            self.o('[')
            for i, (lo, hi) in enumerate(d.bounds):
                if i:
                    self.o(',')
                self.expr(lo)
                self.o(':')
                self.expr(hi)
            self.o(']')
            if more:
                return
        elif d.kind == 'switch':
            self.w('switch')
            self.id(d.name)
            self.o(':=')
            for i, x in enumerate(d.elems):
                if i:
                    self.o(',')
                self.desig(x)
        elif d.kind == 'proc':
            if d.typ:
                self.w(self.TYP[d.typ])
            self.w('procedure')
            self.id(d.name)
            if d.params:
                self.o('(')
                for i, p in enumerate(d.params):
                    if i:
                        self.o(',')
                    self.id(p.name)
                self.o(')')
                self.o(';')
                vals = [p for p in d.params if p.mode == 'value']
                if vals:
                    self.w('value')
                    for i, p in enumerate(vals):
                        if i:
                            self.o(',')
                        self.id(p.name)
                    self.o(';')
                for p in d.params:
                    if p.kind == 'var':
                        self.w(self.TYP[p.typ])
                    elif p.kind == 'arr':
                        if not (p.typ == 'r' and p.spec == 'plain'):
                            self.w(self.TYP[p.typ])
                        self.w('array')
                    elif p.kind == 'proc':
                        if p.typ:
                            self.w(self.TYP[p.typ])
                        self.w('procedure')
                    elif p.kind == 'label':
                        self.w('label')
                    elif p.kind == 'switch':
                        self.w('switch')
                    elif p.kind == 'string':
                        self.w('string')
                    self.id(p.name)
                    self.o(';')
            else:
                self.o(';')
            self.nl()
            self.stmt(d.body)
        else:
            raise AssertionError(d.kind)
        self.o(';')
        self.nl()

    def block(self, b):
        self.w('begin')
        i = 0
        ds = b.decls
        cont = False
        while i < len(ds):
            d = ds[i]
            grp = [d]
            if d.kind in ('var', 'arr'):
                while i + 1 < len(ds) and ds[i + 1].kind == d.kind and ds[i + 1].typ == d.typ and \
                        ds[i + 1].own == d.own and ds[i + 1].bounds is d.bounds and \
                        (d.kind == 'arr' or ds[i + 1].size == d.size):
                    i += 1
                    grp.append(ds[i])
            i += 1
            more = d.kind == 'arr' and i < len(ds) and ds[i].kind == 'arr' and ds[i].join and ds[i].typ == d.typ and ds[i].own == d.own
            self.decl(d, grp, cont, more)
            cont = more
        self.stmts(b.stmts)
        self.w('end')


def tokens(block):
    e = Emit()
    e.block(block)
    return e.t


# ---------------------------------------------------------------- rendering
ASCII_OPS = {'×': '*', '÷': '_:', '↑': '|∧', '≤': '_<', '≥': '_>', '≠': '|=', '≡': '_='}
UNI_OPS = {}


def under(word, style, rng=None):
    if style == 'ascii':
        return ''.join('_' + c for c in word)
    if style == 'combining':
        return ''.join(c + '\u0332' for c in word)
    if style == 'mixed':
        return ''.join(('_' + c) if rng.random() < .5 else c + '\u0332' for c in word)
    raise AssertionError(style)


def render(toks, style='ascii', rng=None, spaced=True, ops='uni', strq=('`', "'"), noise=0.0):
    """Source text of a token list."""
    out = []
    for t in toks:
        k = t[0]
        if k == 'w':
            out.append((' ' if spaced else '') + under(t[1], style, rng) + (' ' if spaced else ''))
        elif k == 'id':
            out.append(t[1])
        elif k == 'n':
            out.append(t[1])
        elif k == 's':
            out.append(strq[0] + t[1] + strq[1])
        elif k == 'o':
            o = t[1]
            if ops == 'ascii' or (ops == 'mixed' and rng.random() < .5):
                o = ASCII_OPS.get(o, o)
            out.append(o)
        elif k == 'nl':
            out.append('\n')
        elif k == 'raw':
            out.append(t[1])
    return ''.join(out) + '\n'
