"""The trace: an online checker that follows a recorded trace line by line with its own memory, stack and registers."""
import os
import random
import re
from fractions import Fraction

from . import harness
from .core import ok, bad, skip, unsure, case_hash
from .harness import Scratch, tool

W27 = (1 << 27) - 1
DEV = set(range(0o77771, 0o77777))
INSTR = re.compile(r'^([0-7]{5}): (\d\d) (\d\d) (\d{5}) (.*)$')
MEM = re.compile(r'^       Memory (Write|Read) \[([0-7]{5})\] = (\d\d) (\d\d) (\d{5})$')
STK = re.compile(r'^       Stack (Push|Pop|Write|Add|Subtract|Multiply|Divide) \[([0-7]+)\] = (integer -?\d+d|real \S+|addr [0-7]+|nan)$')
REG = re.compile(r'^       (A|S|B|C|SP|FP) = (.*)$')
DISP = re.compile(r'^       Display \[([0-7]+)\] = ([0-7]{5,})$')
LEVEL = re.compile(r'^       Change Level [0-7]+, Frame [0-7]+ -> Level [0-7]+, Frame [0-7]+$')
# operations by their code
OPNAME = {8: "ETMR", 9: "ETMP", 10: "FTMR", 11: "FTMP", 12: "RET", 13: "EIS", 14: "TRAD", 15: "TRAS", 16: "TIAD", 17: "TIAS", 18: "TFA", 19: "FOR0",
          20: "FOR1", 21: "FOR2", 22: "FOR3", 23: "FOR4", 24: "FOR5", 25: "FOR6", 26: "FOR7", 27: "FOR8", 28: "GTA", 29: "SSI", 30: "CAC", 31: "TRRD", 32:
          "TRRS", 33: "TIRD", 34: "TIRS", 35: "TFR", 36: "ADRD", 37: "ADRS", 38: "ADID", 39: "ADIS", 40: "ADF", 41: "SURD", 42: "SURS", 43: "SUID", 44: "SUIS",
          45: "SUF", 46: "MURD", 47: "MURS", 48: "MUID", 49: "MUIS", 50: "MUF", 51: "DIRD", 52: "DIRS", 53: "DIID", 54: "DIIS", 55: "DIF", 56: "IND", 57: "NEG",
          58: "TAR", 59: "ADD", 60: "SUB", 61: "MUL", 62: "DIV", 63: "IDI", 64: "TTP", 65: "MOR", 66: "LST", 67: "EQU", 68: "MST", 69: "LES", 70: "UQU", 71:
          "NON", 72: "AND", 73: "OR", 74: "IMP", 75: "QVL", 76: "abs", 77: "sign", 78: "sqrt", 79: "sin", 80: "cos", 82: "ln", 83: "exp", 84: "entier", 85:
          "ST", 86: "STA", 87: "STP", 88: "STAP", 89: "SCC", 90: "RSF", 91: "ISF", 92: "RVA", 93: "IVA", 94: "LAP", 95: "VAP", 96: "START", 97: "STOP", 98:
          "TFP", 99: "TAS", 100: "OBC6", 101: "FLOATER", 102: "read", 103: "print", 104: "TAB", 105: "NLCR", 106: "XEEN", 107: "SPACE", 108: "stop", 109: "P21"}
# text of a plain instruction that ends with its address
PLAIN = re.compile(r'^(?:[ABST] :=|if !C then T :=) ([0-7]+)$')
CALLS = {8, 9, 10, 11, 18, 35, 40, 45, 50, 55, 98}      # may create frames and jump
ARITH = {"Add": lambda a, b: a + b, "Subtract": lambda a, b: a - b, "Multiply": lambda a, b: a * b}
ARG, PC = 5, 1


def unoct(a, b, c):
    """Word printed as 'aa bb ccccc' (2+2+5 digits): bits 26..21, 20..15, 14..0, all octal."""
    return int(a, 8) << 21 | int(b, 8) << 15 | int(c, 8)


def word_text(w):
    return "%02o %02o %05o" % (w >> 21 & 63, w >> 15 & 63, w & 32767)


class Bad(Exception):
    pass


class Lost(Exception):
    pass


class Step:
    __slots__ = ("addr", "word", "text", "ops", "regs", "line")

    def __init__(self, addr, word, text, line):
        self.addr, self.word, self.text, self.line = addr, word, text, line
        self.ops, self.regs = [], {}


def parse(text):
    """(loads, steps, tail)"""
    lines = text.split('\n')
    if lines and lines[-1] == '':
        lines.pop()
    elif lines:
        raise Bad("the last line of the trace is not complete: %r" % lines[-1][-80:])
    loads, steps = [], []
    cur = None
    for i, l in enumerate(lines):
        if l.startswith('X1 Algol Simulator Version') and i == 0:
            continue
        m = INSTR.match(l)
        if m:
            cur = Step(int(m.group(1), 8), unoct(*m.group(2, 3, 4)), m.group(5), i)
            steps.append(cur)
            continue
        m = MEM.match(l)
        if m:
            o = ("M" + m.group(1)[0], int(m.group(2), 8), unoct(*m.group(3, 4, 5)))
            if cur is None:
                if o[0] != "MW":
                    raise Bad("line %d: %r before the first instruction" % (i + 1, l))
                loads.append(o[1:])
            else:
                cur.ops.append(o)
            continue
        if cur is None:
            raise Bad("line %d: %r before the first instruction" % (i + 1, l))
        m = STK.match(l)
        if m:
            cur.ops.append((m.group(1), int(m.group(2), 8), m.group(3)))
            continue
        m = REG.match(l)
        if m:
            k, v = m.groups()
            if k in cur.regs:
                raise Bad("line %d: register %s shown twice in one step" % (i + 1, k))
            if k in 'AS' and len(k) == 1:
                if not re.match(r'^\d\d \d\d \d{5}$', v):
                    raise Bad("line %d: bad register line %r" % (i + 1, l))
                cur.regs[k] = unoct(*v.split())
            else:
                cur.regs[k] = int(v, 8)
            continue
        m = DISP.match(l)
        if m:
            cur.ops.append(("D", int(m.group(1), 8), int(m.group(2), 8)))
            continue
        if LEVEL.match(l):
            continue
        raise Bad("line %d is not a trace line: %r" % (i + 1, l[:120]))
    return loads, steps


def int_text(w):
    return "integer -%dd" % (w ^ W27) if w >> 26 else "integer %dd" % w


def frac(v):
    """Exact value of a shown number: Fraction, or None for anything else."""
    if v.startswith('integer'):
        return Fraction(int(v[8:-1]))
    if not v.startswith('real'):
        return None
    m = re.match(r'^real (-?)0x([0-9a-f]+)(?:\.([0-9a-f]*))?p([+-]\d+)$', v)
    if not m:
        raise Bad("bad real value %r" % v)
    f = m.group(3) or ''
    x = Fraction(int(m.group(2) + f, 16)) * Fraction(2) ** (int(m.group(4)) - 4 * len(f))
    return -x if m.group(1) else x


def real_of(hi, lo):
    """Exact value of two words."""
    x = hi << 27 | lo
    neg = x >> 53
    if neg:
        x ^= (1 << 54) - 1
    m = (x >> 27 & ((1 << 26) - 1)) << 14 | x >> 12 & 0x3fff
    v = Fraction(m) * Fraction(2) ** ((x & 0xfff) - 2048 - 40)
    return -v if neg else v


REL = {65: lambda a, b: a > b, 66: lambda a, b: a >= b, 67: lambda a, b: a == b, 68: lambda a, b: a <= b, 69: lambda a, b: a < b,
       70: lambda a, b: a != b}
LOG = {72: lambda a, b: a and b, 73: lambda a, b: a or b, 74: lambda a, b: not a or b, 75: lambda a, b: a == b}
STATIC = {37: 'r', 39: 'i', 42: 'r', 44: 'i', 47: 'r', 49: 'i', 52: 'r', 54: 'i'}


def num(v):
    return int(v[8:-1]) if v.startswith('integer') else None


class Checker:
    def __init__(self, loads, steps, obj, entry):
        self.loads, self.steps, self.obj, self.entry = loads, steps, obj, entry
        self.mem = {}
        self.stack = []         # values as shown
        self.reg = dict(A=0, B=0, C=0, S=0, SP=0, FP=0)
        self.frames = []
        self.display = {}
        self.ev = {}

    def count(self, k, n=1):
        self.ev[k] = self.ev.get(k, 0) + n

    def run(self, ended_ok):
        if self.obj is not None and self.loads != self.obj:
            k = next((i for i, (a, b) in enumerate(zip(self.loads, self.obj)) if a != b), min(len(self.loads), len(self.obj)))
            raise Bad("words loaded differ from the object program: item %d: %s, object program has %s" % (
                k, self.loads[k:k + 1], self.obj[k:k + 1]))
        for a, w in self.loads:
            self.mem[a] = w
        self.count("words-loaded", len(self.loads))
        expect = {self.entry} if self.entry is not None else None
        for i, s in enumerate(self.steps):
            self.where = "line %d (%05o: %s %s)" % (s.line + 1, s.addr, word_text(s.word), s.text)
            if expect is not None and s.addr not in expect:
                raise Bad("%s: executed after %s, expected address %s" % (self.where, self.prevwhere if i else "start",
                                                                         '/'.join('%05o' % e for e in sorted(expect))))
            if s.word != self.mem.get(s.addr, 0):
                raise Bad("%s: memory holds %s at that address" % (self.where, word_text(self.mem.get(s.addr, 0))))
            last = i + 1 == len(self.steps)
            expect = self.step(s, last and not ended_ok)
            self.prevwhere = self.where
        self.count("steps", len(self.steps))
        if ended_ok:
            if not self.steps or self.steps[-1].word != 97:
                raise Bad("the trace does not end with the instruction STOP")

    # one executed instruction; returns the possible next addresses (None: any)
    def step(self, s, failing):
        op, addr = s.word >> 15 & 0xfff, s.word & 32767
        R = self.reg
        old = dict(R)
        nxt = {(s.addr + 1) & 32767}
        if op == 0 and addr in OPNAME and s.text.split(' ')[0] != OPNAME[addr]:
            raise Bad("%s: operation %d is %s" % (self.where, addr, OPNAME[addr]))
        if not s.text.strip():
            raise Bad("%s: an instruction without its text" % self.where)
        m = PLAIN.match(s.text)
        if m:
            self.count("addresses in text")
            if int(m.group(1), 8) != addr:
                raise Bad("%s: the address in the text is not that of the word" % self.where)
        lit = None          # expected memory operations of a plain machine instruction
        new = None          # expected registers
        cond = op & 3
        skipped = cond == 2 and not R['C'] or cond == 3 and R['C']
        if skipped:
            lit, new = [], {}
        else:
            if cond in (2, 3):
                op &= ~3
            try:
                lit, new, jump = self.literal(op, addr, s)
                if jump is not None:
                    nxt = {jump & 32767}
            except KeyError:
                lit = new = None
        if lit is not None:
            self.count("plain")
            mops = [o for o in s.ops if o[0] in ("MR", "MW")]
            if not failing and mops != lit:
                raise Bad("%s: memory operations %s expected, the trace shows %s" % (self.where, self.show(lit), self.show(mops)))
        if op == 0 and not skipped and not failing:
            self.effect(s, addr, R)
        shr = self.stackops(s, op if not skipped else -1, addr, old, failing)
        # registers
        depth = len(self.stack)
        for k, v in s.regs.items():
            if R[k] == v:
                raise Bad("%s: %s = %o shown as changed, but that was its value" % (self.where, k, v))
        if failing:
            return None
        if new is not None:
            for k in "ABCS":
                v = new.get(k, old[k])
                if v is None:
                    continue
                shown = s.regs.get(k, old[k])
                if shown != v:
                    raise Bad("%s: register %s is %o after the instruction, the trace shows %s" % (
                        self.where, k, v, "%o" % s.regs[k] if k in s.regs else "no change from %o" % old[k]))
        else:
            self.count("operations")
        for k, v in s.regs.items():
            R[k] = v
        if s.regs.get('SP', old['SP']) != depth:
            raise Bad("%s: by the pushes and pops shown the stack pointer is %o, the trace shows %s" % (
                self.where, depth, "SP = %o" % s.regs['SP'] if 'SP' in s.regs else "no change from %o" % old['SP']))
        if op == 0 and not skipped:
            nxt = self.jumps(s, addr, old, nxt, shr)
        return nxt

    def show(self, ops):
        return '; '.join("%s [%05o] = %s" % ({"MR": "Read", "MW": "Write"}[o[0]], o[1], word_text(o[2])) for o in ops) or 'none'

    def peek(self, a):
        return self.mem.get(a & 32767, 0)

    def literal(self, op, addr, s):
        """Plain machine instruction: (memory operations, new registers, jump). KeyError: not one of them."""
        R = self.reg

        def rd(a):
            a &= 32767
            if a in DEV:
                v = next((o[2] for o in s.ops if o[0] == "MR" and o[1] == a), 0)
                return v, [("MR", a, v)]
            return self.peek(a), [("MR", a, self.peek(a))]

        o = '%04o' % op
        if o == '0220':
            return [], {'A': addr}, None
        if o == '0320':
            return [], {'A': ~addr & W27}, None
        if o == '0600':
            return [("MW", addr, R['A'])], {}, None
        if o == '1200':
            v, m = rd(addr)
            return m, {'S': v}, None
        if o == '1220':
            return [], {'S': addr}, None
        if o == '1240':
            v, m = rd(addr + R['B'])
            return m, {'S': v}, None
        if o == '1600':
            return [("MW", addr, R['S'])], {}, None
        if o == '3431':
            return [], {'C': int(R['S'] == addr)}, None
        if o == '3620':
            return [], {'S': R['S'] & addr}, None
        if o == '4020':
            return [], {'B': R['B'] + addr}, None
        if o == '4200':
            v, m = rd(addr)
            return m, {'B': v % 32768}, None
        if o == '4220':
            return [], {'B': addr}, None
        if o == '4240' and addr != 5:
            v, m = rd(addr + R['B'])
            return m, {'B': v}, None
        if o == '4600':
            return [("MW", addr, R['B'])], {}, None
        if o == '5100':
            v, m = rd(addr)
            return m, {}, s.addr + 1 - 1 - v
        if o == '5220':
            return [], {}, addr
        if o == '5404':
            w = self.peek(0)
            v = (w + 0o777777776 + (w > 1)) & W27
            return [("MR", 0, w), ("MW", 0, v)], {}, addr if w > 1 else None
        if o == '7700':
            n = min(addr & 31, 27)
            k = {0: 'A', 1: 'S'}[addr >> 5]
            x = R[k]
            return [], {k: (x >> n | (W27 << (27 - n) if x >> 26 else 0)) & W27}, None
        if o == '6714':
            n = (addr & 31) % 27
            k = {0: 'A', 1: 'S'}[addr >> 5]
            x = R[k]
            return [], {k: (x >> n | x << (27 - n)) & W27, 'C': None}, None
        if o in ('0244', '0350'):
            return [], {'A': None, 'C': None}, None
        if o in ('0400', '0640'):
            return [], {}, None
        raise KeyError(op)

    def effect(self, s, addr, R):
        """What the simple operations must show: exactly the values that memory, stack and registers hold."""
        st = self.stack
        ops = [o for o in s.ops if o[0] not in ("D",)]
        kinds = [o[0] for o in ops]
        want = None         # (kinds, value text or exact value of the last)
        if addr in (15, 17):
            want = ["Push"], "addr %o" % R['B']
        elif addr in (14, 16, 31, 33):
            cell = self.display.get(R['S'] & 31, 0) + (R['S'] >> 5)
            if addr in (14, 16):
                want = ["Push"], "addr %o" % (cell + 0o100000)
            elif cell < len(st):
                want = ["Push"], st[cell]
        elif addr in (34, 32) and R['B'] in DEV:
            self.count("device-reads")
            w = [o[2] for o in ops if o[0] == "MR"]
            if addr == 34 and len(w) == 1:
                want = ["MR", "Push"], int_text(w[0])
            elif addr == 32 and len(w) == 2:
                want = ["MR", "MR", "Push"], real_of(*w)
            else:
                raise Bad("%s: reads of the device not shown" % self.where)
        elif addr == 34:
            want = ["MR", "Push"], int_text(self.peek(R['B']))
            self.at(s, ops, R['B'])
        elif addr == 32:
            want = ["MR", "MR", "Push"], real_of(self.peek(R['B']), self.peek(R['B'] + 1))
            self.at(s, ops, R['B'])
        elif addr in STATIC:
            self.at(s, ops, R['B'])
            self.count("operands")
        elif addr in REL and len(st) > 1 and frac(st[-1]) is not None and frac(st[-2]) is not None:
            want = ["Pop", "Pop", "Push"], "integer %dd" % (0 if REL[addr](frac(st[-2]), frac(st[-1])) else 1)
        elif addr in LOG and len(st) > 1:
            a, b = (x in ("integer 0d", "integer -0d") for x in (st[-2], st[-1]))
            want = ["Pop", "Pop", "Push"], "integer %dd" % (0 if LOG[addr](a, b) else 1)
        elif addr in (85, 86) and len(st) > 1 and frac(st[-1]) is not None and st[-2].startswith("addr"):
            a, v = int(st[-2][5:], 8), frac(st[-1])
            w = [o for o in ops if o[0] in ("MW", "Write")]
            if a >= 0o100000:
                if len(w) != 1 or w[0][0] != "Write" or w[0][1] != a - 0o100000:
                    raise Bad("%s: store of %s to stack cell %o shown as %s" % (self.where, st[-1], a - 0o100000, w))
                got = frac(w[0][2])
            else:
                if [o[1] for o in w] not in ([a], [a, a + 1]) or any(o[0] != "MW" for o in w):
                    raise Bad("%s: store of %s to %05o shown as %s" % (self.where, st[-1], a, w))
                got = frac(int_text(w[0][2])) if len(w) == 1 else real_of(w[0][2], w[1][2])
                if a in DEV or a + 1 in DEV:
                    got = v
            if got != v and not (got.denominator == 1 and abs(got - v) <= Fraction(1, 2)):
                raise Bad("%s: store of %s shown as %s" % (self.where, st[-1], w))
            self.count("stores")
        if want is None:
            return
        self.count("effects")
        if kinds != want[0]:
            raise Bad("%s: operations %s expected, the trace shows %s" % (self.where, want[0], kinds))
        got = ops[-1][2]
        if isinstance(want[1], Fraction):
            got = frac(got)
        if got != want[1]:
            raise Bad("%s: pushes %s, should be %s" % (self.where, ops[-1][2], want[1]))

    def at(self, s, ops, a):
        if not ops or ops[0][0] != "MR" or ops[0][1] != a & 32767:
            raise Bad("%s: no memory read at %05o shown" % (self.where, a & 32767))

    def stackops(self, s, op, addr, old, failing):
        st = self.stack
        shrunk = None
        mayshrink = op == 0 and addr in (12, 13, 27, 28, 103)
        target = s.regs.get('SP', old['SP'])
        opn = op == 0
        popped = []
        # what must be left of the stack by a return (known exactly), before anything that follows on it
        for k, (o, a, v) in enumerate(s.ops):
            if o == "MW":
                if a not in DEV:
                    self.mem[a] = v
                self.count("memory-writes")
                continue
            if o == "MR":
                if a not in DEV and v != self.peek(a):
                    raise Bad("%s: reads %s from %05o, which holds %s" % (self.where, word_text(v), a, word_text(self.peek(a))))
                self.count("memory-reads")
                continue
            if o == "D":
                self.display[a] = v
                self.count("displays")
                continue
            self.count("stack-ops")
            if mayshrink and o in ("Push", "Pop", "Add", "Subtract", "Multiply", "Divide") and shrunk is None:
                want = a if o == "Push" else a + 1
                if want < len(st):
                    shrunk = len(st)
                    self.dropped = st[want:]
                    del st[want:]
            if mayshrink and o == "Write" and addr == 13 and shrunk is None and a + 1 < len(st):
                shrunk = len(st)
                del st[a + 1:]
            n = len(st)
            if o == "Push":
                if a != n:
                    raise Bad("%s: push to cell %o of a stack of %o cells" % (self.where, a, n))
                st.append(v)
                continue
            if a >= n or o != "Write" and a != n - 1:
                raise Bad("%s: %s of cell %o of a stack of %o cells" % (self.where, o, a, n))
            if o == "Pop":
                if st[a] != v:
                    raise Bad("%s: popped %s from cell %o, which holds %s" % (self.where, v, a, st[a]))
                st.pop()
                popped.append(v)
                continue
            if o in ARITH and popped and num(popped[-1]) is not None and num(st[a]) is not None and num(v) is not None:
                e = ARITH[o](num(st[a]), num(popped[-1]))
                if num(v) != e:
                    raise Bad("%s: %s of %s and %s gives %s" % (self.where, o, st[a], popped[-1], v))
                self.count("sums")
            st[a] = v
        if not failing and mayshrink and target < len(st):
            shrunk = shrunk or len(st)
            del st[target:]
        return shrunk

    def jumps(self, s, addr, old, nxt, shr):
        """Control flow of the standard operations, from the frames seen on the stack."""
        st = self.stack
        pushes = [o for o in s.ops if o[0] == "Push"]
        if addr in CALLS and len(pushes) >= 6:
            f = pushes[0][1] + 1
            self.frames.append(f)
            self.count("calls")
            if st[f:f + 5][0] != "addr %o" % old['FP'] or st[f + 1] != "addr %o" % (s.addr + 1):
                raise Bad("%s: the frame created at %o does not hold the frame pointer %o and the return address %o" % (
                    self.where, f, old['FP'], s.addr + 1))
            if addr in (8, 9):
                return {old['B'] & 32767}
            return None
        if addr in (12, 13, 27):        # RET EIS FOR8
            if not self.frames:
                raise Bad("%s: return without a call" % self.where)
            f = self.frames.pop()
            self.count("returns")
            if addr == 13 and len(st) > f + 1:
                raise Lost()        # a standard procedure was called with a wrong number of arguments: the frame is not what it was
            if len(st) < f - 1 or len(st) > f + 1:
                raise Bad("%s: after the return from the frame at %o the stack has %o cells" % (self.where, f, len(st)))
            return self.ret.pop(f, None) if hasattr(self, 'ret') else None
        if addr == 28:                  # GTA
            while self.frames and self.frames[-1] >= len(st):
                self.frames.pop()
            self.count("goto-exits")
            return nxt
        if addr in (20,):
            return None
        if addr in (21, 23, 26):
            return None
        return nxt


class Flow(Checker):
    """Adds the exact return addresses: they are in the frames."""

    def step(self, s, failing):
        op, addr = s.word >> 15 & 0xfff, s.word & 32767
        self.ret = {}
        if op == 0 and self.frames:
            f = self.frames[-1]
            if addr in (12, 13) and f + 1 < len(self.stack):
                a, b = self.stack[f + 1], self.stack[f]
                self.ret[f] = {int(a[5:], 8) & 32767} if a.startswith('addr') else None
                self.fp_after = int(b[5:], 8) if b.startswith('addr') else None
            elif addr == 27:
                self.ret[f] = {self.reg['S'] & 32767}
                b = self.stack[f] if f < len(self.stack) else ''
                self.fp_after = int(b[5:], 8) if b.startswith('addr') else None
            else:
                self.fp_after = None
            if addr in (20, 21, 23, 26):
                c = self.stack[f + ARG] if f + ARG < len(self.stack) else None
                p = self.stack[f + PC]
                self.forlink = (c, p)
        r = Checker.step(self, s, failing)
        if failing:
            return None
        if op == 0 and addr in (12, 13, 27) and self.fp_after is not None and self.reg['FP'] != self.fp_after:
            raise Bad("%s: the frame pointer saved at the call was %o, the trace shows %o after the return" % (self.where, self.fp_after, self.reg['FP']))
        if op == 0 and addr in (20, 21, 23, 26) and self.frames:
            f = self.frames[-1]
            c, p = self.forlink
            want = p if addr == 20 else c
            t = int(want[5:], 8) if want and want.startswith('addr') else None
            if addr == 20:
                return {t & 32767} if t is not None else None
            return {(s.addr + 1) & 32767} | ({t & 32767} if t is not None else set())
        return r


def object_words(obj):
    """(words, entry) of an object program in text form."""
    words, entry = [], None
    for l in obj.decode('utf-8', 'replace').split('\n'):
        f = l.split()
        if len(f) == 2:
            words.append((int(f[0]) & 32767, int(f[1]) & W27))
        elif len(f) == 3 and entry is None:
            entry = (int(f[0]) * 32 + int(f[1])) * 32 + int(f[2])
    return words, entry


def merged(whole, trace_lines, out):
    """Is `whole` the trace lines in order with the program's output in between?"""
    pos = 0
    rest = []
    for l in trace_lines:
        k = whole.find(l + b'\n', pos)
        if k < 0:
            return "trace line %r missing on standard output" % l[:100]
        rest.append(whole[pos:k])
        pos = k + len(l) + 1
    rest.append(whole[pos:])
    if b''.join(rest) != out:
        return "standard output is not the trace merged with the program's output: left over %r, output %r" % (b''.join(rest)[:200], out[:200])
    return None


MODES = ["-d --trace=t", "--trace=t -d", "--debug --trace=t", "-T t --debug", "--trace=t", "-d", "-T t"]


def check_source(src, inp, variant, r):
    """Run src without and with tracing; returns (problem or None, events, why-not)."""
    t = tool(variant)
    ev = {}
    with Scratch() as d:
        with open(os.path.join(d, "p.a60"), "wb") as f:
            f.write(src if isinstance(src, bytes) else src.encode())

        e = t.env()

        def go(args, cpu=12):
            return harness.run1([t.sim, "p.a60"] + args, d, inp, env=e, cpu=cpu if variant == "plain" else cpu * 3)
        base = go([], 1)
        if base.timeout:
            return None, ev, "watchdog"
        if base.hang:
            return None, ev, "too long"
        if base.rc not in (0, 1) or base.crashed():
            return None, ev, "crash (judged elsewhere)"
        obj = open(os.path.join(d, "p.x1"), "rb").read()
        tr = go(["-d", "--trace=t"])
        if tr.timeout:
            return None, ev, "watchdog"
        if tr.hang:
            return None, ev, "too long with tracing"

        def same(q, how, out=None):
            if q.timeout or q.hang:
                return None
            o = q.out if out is None else out
            if (q.rc, o, q.err) != (base.rc, base.out, base.err):
                return "with %s the run differs\nwithout: %s\nwith: %s" % (how, base.brief(), q.brief())
            return None
        p = same(tr, "-d --trace=t")
        if p:
            return p, ev, None
        tp = os.path.join(d, "t")
        if not os.path.exists(tp):
            return "no trace file", ev, None
        raw = open(tp, "rb").read()
        ev["traces"] = 1
        mode = r.choice(MODES)
        if os.path.exists(tp):
            os.unlink(tp)
        q = go(mode.split())
        ev["mode:" + mode] = 1
        if q.timeout:
            return None, ev, "watchdog"
        if q.hang:
            return None, ev, "too long with tracing"
        if mode == "-d":
            lines = raw.rstrip(b'\n').split(b'\n')[1:]
            if len(raw) < 3 << 20:
                p = merged(q.out, lines, base.out)
                if p:
                    return "with -d: " + p, ev, None
                if (q.rc, q.err) != (base.rc, base.err):
                    return "with -d status or messages differ: %s" % q.brief(), ev, None
                ev["merged"] = 1
        else:
            p = same(q, mode)
            if p:
                return p, ev, None
            got = open(tp, "rb").read() if os.path.exists(tp) else None
            if '-d' in mode and got != raw:
                return "the trace with %s differs from the one with -d --trace=t" % mode, ev, None
            if got is None:
                return "no trace file with %s" % mode, ev, None
        if base.rc and not obj.strip():
            return None, ev, "not compiled"
        if len(raw) > 40 << 20:
            return None, ev, "trace too long"
        try:
            words, entry = object_words(obj)
            loads, steps = parse(raw.decode('utf-8', 'replace'))
            c = Flow(loads, steps, words, entry)
            try:
                c.run(base.rc == 0)
            except Lost:
                c.count("lost")
        except Bad as x:
            return "trace: %s" % x, ev, None
        for k, v in c.ev.items():
            ev[k] = ev.get(k, 0) + v
        ev["end:" + ("normal" if base.rc == 0 else "error")] = 1
        for s in steps:
            if s.word < 128:
                ev["op:%d" % s.word] = 1
        return None, ev, None


def judge(src, inp, variant, seed):
    r = random.Random(seed * 7 + 5)
    p, ev, why = check_source(src, inp, variant, r)
    key = case_hash(src if isinstance(src, bytes) else src.encode())
    if p:
        return bad(key, p, {"program.a60": src if isinstance(src, str) else src.decode('utf-8', 'replace'), "input": inp}, events=ev)
    if why:
        return skip(why) if why != "watchdog" else unsure(why)
    return ok(key, ev, nontrivial=ev.get("steps", 0) > 30, sample={"seed": seed, "steps": ev.get("steps"), "source": str(src)[:600]})


def case(item):
    """item: [seed, variant]"""
    from . import work
    seed, variant = item
    x = work.program(seed)
    if x is None:
        return skip("no program")
    k, src, inp = x
    if "TIMEOFDAY" in src:
        return skip("prints the time of day")
    o = judge(src.encode('utf-8', 'surrogateescape'), inp, variant, seed)
    o.setdefault("ev", {})
    if o.get("ev") is not None:
        o["ev"]["kind:" + k] = 1
    return o
