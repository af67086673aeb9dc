"""The list the compiler prints: every label, procedure and switch with the address of its code; and the order of the object program."""
import random
import re

from . import harness
from .core import ok, bad, skip, unsure, case_hash
from .harness import Scratch, tool

U = lambda w: ''.join('_' + c for c in w)
BEGIN, END, INT, PROC, SW, GOTO, REAL, FOR, DO, IF, THEN, STEP, UNTIL, COMMENT, ARR, BOOL = map(U, (
    'begin', 'end', 'integer', 'procedure', 'switch', 'goto', 'real', 'for', 'do', 'if', 'then', 'step', 'until', 'comment', 'array', 'boolean'))
AL = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
RESERVED = {'read', 'print', 'abs', 'sign', 'sqrt', 'sin', 'cos', 'ln', 'exp', 'entier', 'arctan', 'RESYM', 'PRSYM', 'SPACE', 'TAB', 'NLCR', 'XEEN', 'SUM', 'FLOT', 'FIXT', 'ABSFIXT',
            'TO', 'AT', 'EVEN', 'STOP', 'RANDOM', 'SETRANDOM', 'PRINTTEXT', 'TIMEOFDAY', 'PRNL', 'kk'}


class G:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.used = set(RESERVED)
        self.c = 40000
        self.long = 0
        self.want = []          # (kind, name, mark) in the order of the listing
        self.ev = {}
        self.maxdepth = self.r.choice([1, 2, 4, 8])
        self.budget = self.r.choice([4, 10, 25, 60, 150])
        self.lens = self.r.choice([[1, 2], [3, 4, 5], [4, 5], [8, 9, 10], [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 14]])
        self.filler = self.r.choice([0, 0, .3, .8])
        self.rep = self.r.choice([[1, 1, 3], [1, 1, 3], [1, 1, 3], [1, 20, 60]])

    def count(self, k):
        self.ev[k] = self.ev.get(k, 0) + 1

    def name(self):
        r = self.r
        while True:
            n = r.choice(self.lens)
            s = r.choice(AL) + ''.join(r.choice(AL + '0123456789') for _ in range(n - 1))
            if len(s) == 1 and r.random() < .8:
                s += r.choice('0123456789') + r.choice('0123456789')
            if s[:9] not in self.used:
                self.used.add(s[:9])
                return s

    def const(self):
        self.c += self.r.randrange(1, 2000)
        return self.c

    def sp(self):
        return self.r.choice(['', '', ' ', '\n', '\t', ' ' + COMMENT + ' x: ; ']) if self.r.random() < .3 else ''

    def fill(self):
        r = self.r
        if r.random() >= self.filler or self.long > 14000:
            return ''
        x = r.choice(['kk := kk + 1; ', 'print(kk); ', IF + ' kk > 3 ' + THEN + ' kk := 1; ', 'NLCR; ', 'print(kk × 3 ÷ 2); ',
                         FOR + ' kk := 1 ' + STEP + ' 1 ' + UNTIL + ' 3 ' + DO + ' print(kk); ', 'print(1.5 + kk); ', 'print(sqrt(kk)); ']) * r.choice(self.rep)
        self.long += len(x)
        return x

    def stmt(self, depth, vis, labs):
        """A statement without semicolon; vis: procedures and switches to be used, labs: labels of this block seen before."""
        r = self.r
        self.budget -= 1
        k = r.random()
        if k < .45 or self.budget < 0:
            l = [self.name() for _ in range(r.choice([1, 1, 1, 2, 3]))]
            m = self.const()
            self.want += [('label', x, ('const', m)) for x in l]
            labs += l
            return ''.join(x + self.sp() + ':' + self.sp() for x in l) + 'kk := %d' % m
        if k < .6 and vis:
            kind, n = r.choice(vis)
            l = self.name()
            self.want.append(('label', l, ('ref', n)))
            labs.append(l)
            return l + ': ' + (n if kind == 'procedure' else GOTO + ' %s[kk]' % n)
        if k < .7 and labs:
            n = r.choice(labs)
            l = self.name()
            self.want.append(('label', l, ('ref', n)))
            return l + ': ' + GOTO + ' ' + n
        if k < .8 and depth < self.maxdepth:
            return self.block(depth + 1, vis)
        if k < .9 and depth < self.maxdepth:
            l = self.name()
            self.want.append(('label', l, None))
            labs.append(l)
            self.count('label of a compound or block')
            return l + ': ' + (self.block(depth + 1, vis) if r.random() < .5 else BEGIN + ' ' + self.stmt(depth + 1, vis, labs) + ' ' + END)
        return 'kk := %d' % r.randrange(100000)

    def block(self, depth, vis):
        r = self.r
        vis = list(vis)
        mine = []
        s = BEGIN + ' ' + r.choice([INT + ' ' + self.name() + ', ' + self.name() + '; ', REAL + ' ' + self.name() + '; ', INT + ' ' + ARR + ' ' + self.name() + '[1:3]; ', ''])
        for _ in range(r.choice([0, 0, 1, 2])):
            if r.random() < .65:
                n = self.name()
                m = self.const()
                self.want.append(('procedure', n, ('proc', m)))
                typ = r.choice(['', '', INT + ' ', REAL + ' ', BOOL + ' '])
                body = 'kk := %d' % m
                if r.random() < .6 or typ:
                    body = BEGIN + ' ' + body + '; ' + (self.fill())
                    inner = []
                    if r.random() < .5 and self.budget > 0:
                        body += self.stmt(depth + 1, vis, inner) + '; '
                    if typ:
                        body += n + ' := ' + ('kk = 1' if typ == BOOL + ' ' else 'kk')
                        self.count('function')
                    body += ' ' + END
                s += typ + PROC + ' ' + n + '; ' + body + '; '
                if not typ:
                    vis.append(('procedure', n))
            else:
                # the labels of a switch are declared in this block
                n = self.name()
                lab = [self.name() for _ in range(r.choice([1, 2, 3, 10]))]
                s += SW + ' ' + n + ' := ' + ', '.join(lab) + '; '
                self.want.append(('switch', n, ('switch', None)))
                vis.append(('switch', n))
                mine.append(lab)
        if s.endswith(BEGIN + ' ') :
            s += INT + ' ' + self.name() + '; '
        labs = []
        st = []
        for lab in mine:
            for l in lab:
                m = self.const()
                self.want.append(('label', l, ('const', m)))
                labs.append(l)
                st.append(l + ': kk := %d' % m)
                self.count('label used before it stands')
        for _ in range(r.randrange(1, 6)):
            f = self.fill()
            st.append(f + self.stmt(depth, vis, labs))
        return s + (';' + self.sp()).join(st) + ' ' + END

    def program(self):
        return BEGIN + ' ' + INT + ' kk; ' + self.block(0, []) + ' ' + END + '\n'


def case(item):
    seed, variant = item
    g = G(seed)
    src = g.program()
    ev = g.ev
    key = case_hash(src)
    t = tool(variant)
    with Scratch() as d:
        res = t.compile(d, src)
    if res.timeout:
        return unsure('watchdog')
    text = res.out.decode('utf-8', 'replace')
    fail = lambda m: bad(key, m, {'p.a60': src, 'listing.txt': res.out})
    if res.rc == 1 and ('stop 3- 2' in text or 'stop 0-25' in text):
        return skip('too large for the store')
    if res.rc != 0:
        return fail('the compiler refuses the program: %s' % res.brief())
    # the object program: two addresses, then one line for each cell
    m = re.search(r'^ *(\d+) +(\d+) +(\d+)\n *(\d+) +(\d+) +(\d+)\n\s*\n((?: *\d+ +\d+\n)+)\Z', text, re.M)
    if not m:
        return fail('no object program of the known form after the list')
    a = list(map(int, m.groups()[:6]))
    if max(a) > 31:
        return fail('an address of three numbers with a number beyond 31')
    start, low = a[0] * 1024 + a[1] * 32 + a[2], a[3] * 1024 + a[4] * 32 + a[5]
    cells = [tuple(map(int, l.split())) for l in m.group(7).splitlines()]
    if [x for x, _ in cells] != list(range(low, low + len(cells))):
        return fail('the cells are not listed once each in ascending order from the lowest, %d' % low)
    obj = dict(cells)
    if any(not 0 <= w < 1 << 27 for w in obj.values()):
        return fail('a word of more than 27 bits')
    if start not in obj or obj[start] != 96:
        return fail('the first instruction is not START')
    got = []
    for l in text[:m.start()].splitlines():
        if not l.strip():
            continue
        x = re.fullmatch(r'([A-Za-z][A-Za-z0-9]{0,8})\s+(\d\d) (\d\d) (\d\d)', l.rstrip())
        if not x or any(int(y) > 31 for y in x.groups()[1:]):
            return fail('a line of the list has another form: %r' % l)
        got.append((x.group(1), int(x.group(2)) * 1024 + int(x.group(3)) * 32 + int(x.group(4)) + start))
    want = [n[:9] for _, n, _ in g.want]
    if [n for n, _ in got] != want:
        i = next((i for i, (p, q) in enumerate(zip([n for n, _ in got], want)) if p != q), min(len(got), len(want)))
        return fail('name %d of the list is %r instead of %r (%d names instead of %d)' % (i + 1, (got[i][0] if i < len(got) else None), want[i] if i < len(want) else None, len(got), len(want)))
    at = dict(got)
    last = start
    for (kind, n, mark), (_, adr) in zip(g.want, got):
        if adr not in obj or adr < last:
            return fail('the address of %s %s, %d, is outside of the program or before that of the name listed before' % (kind, n, adr))
        last = adr
        ev[kind] = ev.get(kind, 0) + 1
        ev['name of %d' % min(len(n), 10)] = ev.get('name of %d' % min(len(n), 10), 0) + 1
        if mark is None:
            continue
        how, x = mark
        words = [obj.get(adr + i, 0) for i in range(16)]
        if how in ('const', 'proc'):
            # k := constant is the first statement there
            refs = [w & 32767 for w in words[:8 if how == 'const' else 14]]
            hit = [i for i, z in enumerate(refs) if obj.get(z) == x]
            if not hit:
                return fail('%s %s: the constant %d of its first statement is not used at %d' % (kind, n, x, adr))
            first = [i for i, z in enumerate(refs) if z in obj and obj[z] >= 40000 and obj[z] < g.c + 1 and z > last]
            if how == 'const' and first and first[0] != hit[0]:
                return fail('%s %s: another statement comes first at %d' % (kind, n, adr))
            ev['address by constant'] = ev.get('address by constant', 0) + 1
        elif how == 'ref':
            if at[x[:9]] not in [w & 32767 for w in words[:8]]:
                return fail('%s %s: the statement refers to %s, listed at %d, but no instruction at %d does' % (kind, n, x, at[x[:9]], adr))
            ev['address by reference'] = ev.get('address by reference', 0) + 1
        else:
            if words[0] != 85983280:
                return fail('switch %s: at %d is no switch' % (n, adr))
            ev['address of a switch'] = ev.get('address of a switch', 0) + 1
    ev['programs'] = 1
    for k in (1024, 2048, 4096):
        if last - start >= k:
            ev['addresses beyond %d' % k] = 1
    return ok(key, ev, sample={'seed': seed, 'names': len(got), 'first': got[:3]}, n=max(1, len(got)))
