"""Shrinks a failing program (for the replay file): removes statements, declarations, replaces expressions."""
from .lang import D, Block, Interp, Discard, Goto, tokens, render
from . import num as N


class Rw:
    """Visits every node; at candidate number k applies the edit."""

    def __init__(self, k, span=0):
        self.k = k
        self.span = span        # >1: only remove that many neighbours from a list
        self.n = 0
        self.done = False
        self.undo = []

    def hit(self, removal=False):
        if self.span and not removal:
            return False
        self.n += 1
        if not self.done and self.n - 1 == self.k:
            self.done = True
            return True
        return False

    def block(self, b):
        nb = Block()
        nb.labels = list(b.labels)
        nb.decls = []
        left = 0
        for d in b.decls:
            if left:
                left -= 1
                continue
            if self.hit(True):
                left = max(0, self.span - 1)
                continue
            if d.kind == 'proc':
                old = d.body
                new = self.stmt(d.body)
                if new is not old:
                    self.undo.append((d, old))
                    d.body = new
            nb.decls.append(d)
        nb.stmts = self.slist(b.stmts)
        if nb.decls == b.decls and all(x is y for x, y in zip(nb.stmts, b.stmts)) and len(nb.stmts) == len(b.stmts):
            return b
        return nb

    def slist(self, l):
        out = []
        left = 0
        for s in l:
            if left:
                left -= 1
                continue
            if self.hit(True):
                left = max(0, self.span - 1)
                continue
            if s[0] == 'comp' and self.hit():
                out.extend(s[1])
                continue
            out.append(self.stmt(s))
        if len(out) == len(l) and all(x is y for x, y in zip(out, l)):
            return l
        return out

    def stmt(self, s):
        k = s[0]
        if k in ('if',):
            if self.hit():
                return s[2]
            if s[3] is not None:
                if self.hit():
                    return s[3]
                if self.hit():
                    return ('if', s[1], s[2], None)
            return self.mk(s, ('if', self.ex(s[1], 'b'), self.stmt(s[2]), s[3] and self.stmt(s[3])))
        if k == 'comp':
            l = self.slist(s[1])
            return s if l is s[1] else ('comp', l or [('dummy',)])
        if k == 'block':
            b = self.block(s[1])
            return s if b is s[1] else ('block', b)
        if k == 'lbl':
            t = self.stmt(s[2])
            return s if t is s[2] else ('lbl', s[1], t)
        if k == 'for':
            els = []
            for el in s[2]:
                if len(s[2]) > 1 and self.hit():
                    continue
                els.append(el)
            body = self.stmt(s[3])
            if body is s[3] and len(els) == len(s[2]):
                return s
            return ('for', s[1], els, body)
        if k == 'assign':
            if len(s[1]) > 1 and self.hit():
                return ('assign', s[1][:1], s[2])
            e = self.ex(s[2])
            return s if e is s[2] else ('assign', s[1], e)
        if k == 'print':
            es = []
            for i, e in enumerate(s[1]):
                if len(s[1]) > 1 and self.hit():
                    continue
                es.append(self.ex(e))
            if len(es) == len(s[1]) and all(a is b for a, b in zip(es, s[1])):
                return s
            return ('print', es) if es else ('dummy',)
        if k == 'pcall':
            a = [self.ex(x) for x in s[2]]
            return s if all(x is y for x, y in zip(a, s[2])) else ('pcall', s[1], a)
        return s

    def mk(self, old, new):
        return old if all(a is b for a, b in zip(old, new)) else new

    def ex(self, e, typ=None):
        k = e[0]
        if k in ('bin', 'bop'):
            if self.hit():
                return e[2]
            if self.hit():
                return e[3]
            return self.mk(e, (k, e[1], self.ex(e[2]), self.ex(e[3])))
        if k == 'rel':
            if self.hit():
                return ('bool', True)
            if self.hit():
                return ('bool', False)
            return self.mk(e, (k, e[1], self.ex(e[2]), self.ex(e[3])))
        if k in ('neg', 'pos', 'not', 'par'):
            if self.hit():
                return e[1]
            return self.mk(e, (k, self.ex(e[1])))
        if k == 'if':
            if self.hit():
                return e[2]
            if self.hit():
                return e[3]
            return self.mk(e, (k, self.ex(e[1]), self.ex(e[2]), self.ex(e[3])))
        if k == 'call':
            if e[1].typ in ('i', 'r') and self.hit():
                return ('num', 1, '1')
            a = [self.ex(x) for x in e[2]]
            return e if all(x is y for x, y in zip(a, e[2])) else ('call', e[1], a)
        if k == 'idx':
            a = [self.ex(x) for x in e[2]]
            return e if all(x is y for x, y in zip(a, e[2])) else ('idx', e[1], a)
        if k == 'std':
            if self.hit():
                return e[2]
            return self.mk(e, (k, e[1], self.ex(e[2])))
        if k == 'var' and e[1].typ == 'i':
            return e
        return e


def placed(stmts, acc):
    for s in stmts:
        k = s[0]
        if k == 'lbl':
            acc.add(s[1])
            placed([s[2]], acc)
        elif k == 'comp':
            placed(s[1], acc)
        elif k == 'if':
            placed([x for x in s[2:4] if x is not None], acc)
        elif k == 'for':
            placed([s[3]], acc)
    return acc


def key(name):
    return name[:9]


def well_scoped(block):
    """Every name resolves, by its first nine characters, to the declaration it was meant to denote."""
    def walk(x, sc):
        if isinstance(x, D):
            return sc.get(key(x.name)) is x
        if isinstance(x, Block):
            new = dict(sc)
            names = {}
            for d in list(x.decls) + list(placed(x.stmts, set())):
                if key(d.name) in names:
                    return False
                names[key(d.name)] = d
            new.update(names)
            for d in x.decls:
                if d.kind == 'arr':
                    # bounds are evaluated outside the block: its own names must not occur in them
                    for bd in d.bounds:
                        for e in bd:
                            if not walk(e, sc) or not walk(e, new):
                                return False
                if d.kind == 'switch' and not all(walk(e, new) for e in d.elems):
                    return False
                if d.kind == 'proc':
                    inner = dict(new)
                    inner.update({key(q.name): q for q in d.params})
                    inner.update({key(q.name): q for q in placed([d.body], set())})
                    if not walk(d.body, inner):
                        return False
            return all(walk(s, new) for s in x.stmts)
        if isinstance(x, (tuple, list)):
            return all(walk(y, sc) for y in x)
        return True
    return walk(block, {})


def shrink(block, fails, max_tests=600):
    """fails(block) -> bool (must be True for block)."""
    tests = 0
    import time
    end = time.time() + 25

    def sweep(block, span):
        nonlocal tests
        progress = False
        k = 0
        while tests < max_tests and time.time() < end:
            rw = Rw(k, span)
            nb = rw.block(block)
            if not rw.done:
                break
            tests += 1
            ok = False
            try:
                ok = well_scoped(nb) and fails(nb)
            except (KeyError, AssertionError, AttributeError, TypeError, Discard, Goto):
                ok = False
            if ok:
                block = nb
                progress = True
            else:
                for d, old in reversed(rw.undo):
                    d.body = old
                k += 1
        return block, progress

    for span in (32, 16, 8, 4, 2, 1):
        block, _ = sweep(block, span)
    progress = True
    while progress and tests < max_tests and time.time() < end:
        block, progress = sweep(block, 0)
        if progress:
            block, _ = sweep(block, 1)
    return block
