"""Hostile inputs for the compiler: mutations of Algol source, at the level of symbols and of bytes."""
import random
import re

WORDS = ("begin end if then else for do step until while goto procedure integer real boolean array switch value string "
         "label own true false comment").split()
SYMS = [";", ",", ":", ":=", "(", ")", "[", "]", "+", "-", "×", "*", "/", "÷", "↑", "<", "≤", "=", "≥", ">", "≠", "¬", "∧", "∨",
        "⊃", "≡", "⏨", "@", ".", "`", "'", '"', "?", "|<", "|>", "|=", "_<", "_>", "_=", "_¬", "_:", "|", "_", " ", "\n", "\t"]


def under(w):
    return ''.join('_' + c for c in w)


_tok = re.compile(r"(?:_[a-z])+|(?:[a-z]\u0332)+|[A-Za-z][A-Za-z0-9]*|[0-9]+|:=|\s+|.", re.S)


def tokens(src):
    return _tok.findall(src)


def rand_token(r):
    k = r.random()
    if k < 0.40:
        return ' ' + under(r.choice(WORDS)) + ' '
    if k < 0.75:
        return r.choice(SYMS)
    if k < 0.87:
        return r.choice(["a", "b", "x", "i", "print", "abs", "read", "PRINTTEXT", "EVEN", "NLCR", "FLOT", "sin", "verylongname",
                         "verylongnameZZ", "P", "Z", "zZ9"])
    return r.choice(["0", "1", "7", "67108863", "67108864", "99999999999999999999", "1⏨5", ".5", "1.", "1⏨", "⏨5", "1⏨700",
                     "1⏨-700", "1⏨99999999", "3.14159265358979323846"])


def mutate_tokens(r, src, other=None):
    t = tokens(src)
    o = tokens(other) if other else t
    for _ in range(r.choice([1, 1, 1, 2, 2, 3, 5, 10])):
        if not t:
            t = [rand_token(r)]
        k = r.randrange(9)
        i = r.randrange(len(t))
        if k == 0:
            del t[i]
        elif k == 1:
            t.insert(i, rand_token(r))
        elif k == 2:
            t[i] = rand_token(r)
        elif k == 3:
            j = r.randrange(len(t))
            t[i], t[j] = t[j], t[i]
        elif k == 4:
            j = min(len(t), i + r.randrange(1, 12))
            t[i:i] = t[i:j] * r.choice([1, 1, 2, 5])
        elif k == 5:
            j = min(len(t), i + r.randrange(1, 30))
            del t[i:j]
        elif k == 6:
            a = r.randrange(len(o))
            t[i:i] = o[a:a + r.randrange(1, 20)]
        elif k == 7:
            t = t[:i]
        else:
            t[i:i] = [rand_token(r)] * r.choice([3, 10, 40, 150])
    return ''.join(t)


def mutate_bytes(r, b):
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 2, 4, 8])):
        if not b:
            b = bytearray(b"x")
        i = r.randrange(len(b))
        k = r.randrange(6)
        if k == 0:
            b[i] = r.randrange(256)
        elif k == 1:
            b.insert(i, r.choice([0, 0x7f, 0x80, 0xc2, 0xc3, 0xcc, 0xb2, 0xe2, 0xff, 0x0d, 0x0a, r.randrange(256)]))
        elif k == 2:
            del b[i:i + r.randrange(1, 8)]
        elif k == 3:
            b = b[:i]
        elif k == 4:
            b[i] ^= 1 << r.randrange(8)
        else:
            b[i:i] = bytes([b[i]]) * r.choice([2, 30, 300, 5000])
    return bytes(b)


def random_tokens(r):
    n = r.choice([3, 10, 40, 120])
    return ' ' + under('begin') + ' ' + ''.join(rand_token(r) for _ in range(n)) + ' ' + under('end')
