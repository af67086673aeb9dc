"""Machine instructions: random object programs of plain X1 instructions against a model of the machine."""
import random

from . import harness
from .core import ok, bad, skip, unsure, case_hash
from .harness import Scratch, tool

W = (1 << 27) - 1
SIGN = 1 << 26
CODE = 1000
DATA, ND = 300, 24
SAVE = 400


class Stop(Exception):
    pass


class Model:
    def __init__(self, mem, wild=False):
        self.m = dict(mem)
        self.A = self.S = self.B = 0
        self.C = self.L = False
        self.stack = []
        self.out = ''
        self.ev = {}

    def get(self, a):
        if a not in self.m:
            raise Lost
        return self.m[a]

    def run(self, pc, limit):
        for _ in range(limit):
            if self.out.count('\n') > 4000:
                raise Lost
            w = self.get(pc)
            op, a = w >> 15, w & 32767
            pc = (pc + 1) & 32767
            c = op & 3
            if c == 1 and op != 0o3431:
                raise Lost
            if c >= 2:
                if (c == 2) != self.C:
                    self.ev["condition: skipped"] = self.ev.get("condition: skipped", 0) + 1
                    continue
                op &= ~3
                self.ev["condition: done"] = self.ev.get("condition: done", 0) + 1
            k = "i:%04o" % op if op in KNOWN else "i:unknown"
            self.ev[k] = self.ev.get(k, 0) + 1
            if op == 0:
                if a == 96:
                    pass
                elif a == 97:
                    return
                elif a == 105:
                    self.out += '\n'
                elif a == 34:
                    self.stack.append(self.get(self.B))
                elif a == 103:
                    self.out += ' '.join('-%d' % (v ^ W) if v & SIGN else '%d' % v for v in self.stack)
                    self.stack = []
                else:
                    raise Lost
            elif op == 0o0220:
                self.A = a
            elif op == 0o0320:
                self.A = ~a & W
            elif op == 0o0244:
                if a != 0o77774:
                    raise Stop
                if not self.stack:
                    raise Stop
                self.A = self.stack[-1]
                self.L = bool(self.A & SIGN)
                self.C = not self.L
            elif op == 0o0640:
                if a != 0o77774:
                    raise Stop
                if not self.stack:
                    raise Stop
                self.stack[-1] = self.A
            elif op == 0o0350:
                if a != 0o77777:
                    raise Stop
                if not self.stack:
                    raise Stop
                self.A = 0
                self.C, self.L = True, False
            elif op == 0o0600:
                self.m[a] = self.A
            elif op == 0o1200:
                self.S = self.get(a)
            elif op == 0o1220:
                self.S = a
            elif op == 0o1240:
                self.S = self.get((a + self.B) & 32767)
            elif op == 0o1600:
                self.m[a] = self.S
            elif op == 0o3431:
                self.C = self.S == a
            elif op == 0o3620:
                self.S &= a
            elif op == 0o4020:
                self.B += a
                if self.B > 32767:
                    raise Lost
            elif op == 0o4200:
                self.B = self.get(a) & 32767
            elif op == 0o4220:
                self.B = a
            elif op == 0o4240 and a != 5:
                self.B = self.get((a + self.B) & 32767)
                if self.B > 32767:
                    raise Lost
            elif op == 0o4600:
                self.m[a] = self.B
            elif op == 0o5100:
                pc = (pc - 1 - self.get(a)) & 32767
            elif op == 0o5220:
                pc = a
            elif op == 0o5404:
                v = self.get(0)
                if v & SIGN:
                    raise Lost
                self.m[0] = v - 1 if v else W - 1
                if v == 1:
                    self.m[0] = W
                if v > 1:
                    pc = a
            elif op == 0o7700:
                n = min(a & 31, 27)
                if a >> 5 > 1:
                    raise Stop
                x = self.S if a >> 5 else self.A
                y = (x >> n | (W << (27 - n) if x & SIGN else 0)) & W
                self.ev["shift"] = self.ev.get("shift", 0) + 1
                if a >> 5:
                    self.S = y
                else:
                    self.A = y
            elif op == 0o6714:
                n = a & 31
                if n > 26 or a >> 5 > 1:
                    if a >> 5 > 1:
                        raise Stop
                    n %= 27
                x = self.S if a >> 5 else self.A
                y = (x >> n | x << (27 - n)) & W
                self.C = bool(y & SIGN) == self.L
                self.L = bool(y & SIGN)
                self.ev["shift"] = self.ev.get("shift", 0) + 1
                if a >> 5:
                    self.S = y
                else:
                    self.A = y
            elif op == 0o6700 and a == 0o40000:
                raise Stop
            elif op in KNOWN:
                raise Lost
            else:
                raise Stop
        raise Lost


class Lost(Exception):
    """Not judged: runs too long, or does something the model does not have."""


KNOWN = {0, 0o0220, 0o0244, 0o0320, 0o0350, 0o0400, 0o0600, 0o0640, 0o1200, 0o1220, 0o1240, 0o1600, 0o3431, 0o3620, 0o4020,
         0o4200, 0o4220, 0o4240, 0o4600, 0o5100, 0o5220, 0o5404, 0o6700, 0o6714, 0o7700}


def value(r):
    k = r.randrange(8)
    if k == 0:
        return r.choice([0, 1, 2, W, W - 1, SIGN, SIGN - 1, SIGN + 1, 32767, 32768, W ^ 32767])
    if k == 1:
        return 1 << r.randrange(27)
    if k == 2:
        return W ^ (1 << r.randrange(27))
    if k == 3:
        return r.randrange(64)
    if k == 4:
        return r.randrange(32768)
    return r.randrange(1 << 27)


def program(r):
    """Words by address."""
    mem = {DATA + i: value(r) for i in range(ND)}
    mem[0] = 0
    for i in range(8):
        mem[SAVE + i] = 0
    code = []
    D = lambda: DATA + r.randrange(ND)

    def put(op, a, cond=True):
        if cond and r.random() < .3 and op & 3 == 0:
            op |= r.choice([2, 3])
        code.append(op << 15 | a)

    def show(what):
        # registers are kept in memory, printed and taken back
        put(0o0600, SAVE, False)
        put(0o1600, SAVE + 1, False)
        put(0o4600, SAVE + 2, False)
        put(0o1220, 0, False)
        put(0o1222, 1, False)
        put(0o1600, SAVE + 3, False)
        for i in what:
            put(0o4220, i, False)
            code.extend([34, 103, 105])
        put(0o4200, SAVE + 2, False)
        put(0o1200, SAVE + 1, False)

    ALL = [SAVE, SAVE + 1, SAVE + 2, SAVE + 3]
    n = r.randrange(5, 60)
    fix = []
    if r.random() < .3:
        put(0o4220, D(), False)
        code.append(34)                 # something on the stack
    for _ in range(n):
        k = r.randrange(24)
        if k < 2:
            put(0o0220, r.randrange(32768))
        elif k == 2:
            put(0o0320, r.randrange(32768))
        elif k == 3:
            put(0o0600, D())
        elif k < 6:
            put(0o1200, D())
        elif k == 6:
            put(0o1220, r.choice([r.randrange(64), r.randrange(32768)]))
        elif k == 7:
            b = r.randrange(ND)
            put(0o4220, b, False)
            put(0o1240 if r.random() < .7 else 0o4240, (DATA + r.randrange(ND - b)) & 32767)
        elif k == 8:
            b = r.randrange(32768)
            put(0o4220, b, False)
            put(0o1240, (D() - b) & 32767)
        elif k == 9:
            put(0o1600, D())
        elif k == 10:
            if r.random() < .5:
                v = r.randrange(32768)
                put(0o1220, v, False)
                put(0o3431, r.choice([v, v, v ^ 1, r.randrange(32768)]))
            else:
                put(0o3431, r.choice([0, 1, r.randrange(64)]))
        elif k == 11:
            put(0o3620, r.choice([r.randrange(32768), 32767, 1 << r.randrange(15), 1]))
        elif k == 12:
            put(0o4020, r.choice([r.randrange(64), r.randrange(16000)]))
        elif k == 13:
            put(r.choice([0o4200, 0o4200, 0o4220]), D())
        elif k == 14:
            put(0o4600, D())
        elif k < 18:
            # A can only be filled from the top of the stack with more than 15 bits
            if r.random() < .6:
                put(0o4220, D(), False)
                code.append(34)
                put(0o0244, 0o77774, r.random() < .2)
                if r.random() < .2:
                    put(0o0350, 0o77777)
                if r.random() < .3:
                    put(0o0640, 0o77774)
            put(r.choice([0o7700, 0o7700, 0o6714]), r.randrange(64) if r.random() < .97 else r.randrange(32768))
        elif k == 18:
            # forward jump
            fix.append((len(code), r.choice([0o5220, 0o5222, 0o5223])))
            code.append(None)
        elif k == 19:
            # jump by a number
            d = DATA + ND + len(fix)
            fix.append((len(code), d))
            code.append(None)
        elif k == 20:
            # a loop
            put(0o1220, r.randrange(1, 5), False)
            put(0o1600, 0, False)
            top = CODE + len(code)
            for _ in range(r.randrange(1, 4)):
                j = r.randrange(4)
                if j == 0:
                    put(0o7700, r.randrange(64))
                elif j == 1:
                    put(0o6714, r.randrange(64))
                elif j == 2:
                    put(0o4020, r.randrange(9))
                else:
                    put(r.choice([0o1200, 0o0600, 0o1600, 0o4600]), D())
            put(0o5404, top, False)
        elif k == 21 and r.random() < .15:
            put(r.randrange(4096), r.randrange(32768), False)       # most likely not an instruction
        elif k == 22 and r.random() < .3:
            # an instruction made by the program
            d = D()
            mem[d] = r.choice([0o0220, 0o1220, 0o4220, 0o0320]) << 15 | r.randrange(32768)
            put(0o1200, d, False)
            put(0o1600, CODE + len(code) + 1, False)
            put(0o0220, 0, False)
        if r.random() < .35:
            show([r.choice(ALL)] if r.random() < .4 else r.sample(ALL, r.randrange(1, 5)))
    show(ALL)
    end = CODE + len(code)
    for i in range(ND):
        code.extend([0o4220 << 15 | (DATA + i), 34, 103, 105])
    code.append(97)
    for i, o in fix:
        to = min(end, CODE + i + r.choice([1, 2, 2, 3, 5, 9]))
        if o > 0o4000 or o == 0:
            code[i] = o << 15 | to
        else:
            # T := T - 1 - M: backwards; once, because the number is then changed to go on
            code[i] = 0o5100 << 15 | o
            mem[o] = (CODE + i - to) & (32767 if r.random() < .5 else W)
            if mem[o] > 32767:
                mem[o] = W - (to - CODE - i) + 1 if to > CODE + i else 0
    for i, w in enumerate(code):
        mem[CODE + i] = w
    mem[CODE - 1] = 96
    return mem


def text(mem, r=None):
    a = CODE - 1
    return ' %2d %2d %2d\n %2d %2d %2d\n\n\n' % (a >> 10, a >> 5 & 31, a & 31, a >> 10, a >> 5 & 31, a & 31) + \
        ''.join('%5d%10d\n' % (k, mem[k]) for k in sorted(mem))


def case(item):
    seed, variant = item
    r = random.Random(seed)
    ev = {}
    shown = 0
    for i in range(4):
        while True:
            mem = program(r)
            m = Model(mem)
            stops = False
            try:
                m.run(CODE - 1, 3000)
            except Stop:
                stops = True
            except Lost:
                continue
            break
        src = text(mem)
        key = case_hash(src)
        files = {"p.x1": src, "expected.txt": m.out}
        with Scratch() as d:
            with open(d + "/p.x1", "w") as f:
                f.write(src)
            x = harness.run1([tool(variant).sim, "p.x1"], d, b"", env=tool(variant).env(), cpu=10)
        if x.timeout:
            return unsure("watchdog")
        files["got.txt"] = x.brief()
        if x.crashed():
            return bad(key, "the simulator crashed: " + x.etext[-1000:], files)
        if x.text != m.out:
            a, b = x.text.split('\n'), m.out.split('\n')
            n = next((i for i, (p, q) in enumerate(zip(a, b)) if p != q), min(len(a), len(b)))
            return bad(key, "line %d of the output: %r, the machine gives %r" % (n + 1, a[n:n + 1], b[n:n + 1]), files)
        if (x.rc == 1 and bool(x.err)) != stops or x.rc != int(stops):
            return bad(key, "exit status %s, message %r; %s expected" % (x.rc, x.etext[-200:], "an error stop" if stops else "a normal end"), files)
        for k, v in m.ev.items():
            ev[k] = ev.get(k, 0) + v
        ev["unknown instruction" if stops else "to the end"] = ev.get("unknown instruction" if stops else "to the end", 0) + 1
        shown += m.out.count('\n')
    ev["values compared"] = shown
    return ok(case_hash(seed), ev, n=shown, sample={"seed": seed, "program": src[:300], "output": m.out[:100]})


def wild_case(item):
    """The same programs, damaged, for the sanitizers only."""
    from . import fuzz
    seed, variant = item
    r = random.Random(seed)
    ev = {}
    for i in range(6):
        mem = program(r)
        keys = [k for k in mem if k >= CODE]
        for _ in range(r.choice([0, 1, 2, 5, 15])):
            k = r.choice(keys)
            w = mem[k]
            mem[k] = r.choice([w ^ 1 << r.randrange(27), w & ~32767 | r.randrange(32768), r.choice(sorted(KNOWN)) << 15 | r.choice([r.randrange(64), r.randrange(32768)]),
                               r.randrange(1 << 27)])
        src = text(mem)
        inp = fuzz.inputs(r)
        key = case_hash(seed, i)
        files = {"p.x1": src, "input.txt": inp}
        with Scratch() as d:
            with open(d + "/p.x1", "w") as f:
                f.write(src)
            x = harness.run1([tool(variant).sim, "p.x1"], d, inp, env=tool(variant).env(), cpu=4, fsize_mb=24)
            if x.timeout:
                continue
            v = fuzz.stuck(d, variant, "p.x1", inp, [], key, files, ev) if x.hang else fuzz.sim_judge(x, key, files, ev, d, ["p.x1"])
        if v:
            return v
    return ok(case_hash(seed), ev, n=6, sample={"seed": seed})
