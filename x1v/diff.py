"""Differential runs: generated programs, the reference interpreter's output against the real compiler + simulator."""
import random
import re

from . import gen, lang, reduce
from .core import ok, bad, skip, unsure, case_hash
from .harness import tool


def norm(s):
    return re.sub(r'(?<![\d.])-0(?![\d.])', '0', s)


# configurations: what a property emphasises
CFG = {
    "default": {},
    "expr": dict(edepth=5, procs=1, gotos=0.1, labels=0.1, fors=0.3, blocks=0.2, reals=0.4, bools=0.35),
    "exprdeep": dict(edepth=7, procs=2, gotos=0, labels=0.05, fors=0.2, blocks=0.1, size=8),
    "control": dict(gotos=1.2, labels=0.8, switches=0.7, blocks=1.0, fors=0.8, depth=4, size=22, procs=1),
    "blocks": dict(blocks=2.0, depth=5, size=24, maxblk=9, shadow=0.9, procs=3, own=0.8),
    "procs": dict(procs=5, calls=2.0, byname=0.6, recursion=0.5, procparams=0.4, depth=3, size=16),
    "byname": dict(procs=4, calls=2.5, byname=0.9, recursion=0.5, procparams=0.1, arrays=0.6),
    "recur": dict(procs=4, calls=2.5, byname=0.7, recursion=1.0, size=12),
    "formal": dict(procs=5, calls=2.0, procparams=0.9, recursion=0.3, byname=0.5),
    "goto": dict(gotos=2.5, labels=1.0, switches=0.8, procs=4, blocks=1.0, depth=4, size=20, procparams=0.3),
    "for": dict(fors=3.0, depth=4, size=20, procs=2, gotos=0.5, labels=0.5),
    "arrays": dict(arrays=1.0, values=0.5, depth=3, size=16, procs=3, errors=0.0, fors=1.5),
    "deep": dict(depth=5, size=40, recursion=0.9, procs=5),
}


def render(block, seed, style=None):
    rng = random.Random(seed)
    if style is None:
        style = rng.choice(['ascii', 'ascii', 'combining', 'mixed'])
    return lang.render(lang.tokens(block), style=style, rng=rng, ops=rng.choice(['uni', 'mixed', 'ascii']))


def nesting(x):
    """Upper bound of the lexical depth: blocks, procedure bodies, for statements and actual parameters count."""
    if type(x) is lang.Block:
        m = max([0] + [nesting(y) for y in x.stmts])
        for d in x.decls:
            if d.kind == 'proc' and d.body:
                m = max(m, 1 + nesting(d.body))
            elif d.kind == 'arr' and d.bounds:
                m = max(m, nesting(d.bounds))
            elif d.kind == 'switch':
                m = max(m, 1 + nesting(d.elems))
        return m + 1
    m = 0
    if type(x) in (tuple, list):
        for y in x:
            if type(y) in (tuple, list, lang.Block):
                m = max(m, nesting(y))
        if x and x[0] in ('for', 'pcall', 'call', 'sum'):
            m += 1
    return m


def wrap(block, seed, share=.18, ev=None):
    """Some programs run inside other blocks and procedures, so that their outermost variables are local ones and their
    block numbers are higher; the meaning stays the same."""
    rng = random.Random(seed * 7 + 3)
    if rng.random() >= share:
        return block
    k = rng.choice([1, 1, 1, 2, 2, 3, 5, 8, 12, 14, 15, 16, 17, 20])
    depth = nesting(block)
    for i in range(k):
        b = lang.Block()
        v = lang.D('var', 'zzv%d' % i, rng.choice('irb'))
        b.decls.append(v)
        inner = ('block', block)
        depth += 1
        if depth > 29:          # the manual allows 30
            break
        if ev is not None:
            ev["wrapped"] = 1
            if i == 12:
                ev["wrapped deeply"] = 1
        if rng.random() < .4:
            depth += 1
            h = lang.D('proc', 'zzp%d' % i, None, params=[])
            h.body = inner
            b.decls.append(h)
            inner = ('pcall', h, [])
        if v.typ != 'b' and rng.random() < .5:
            b.stmts.append(('assign', [('var', v)], ('num', 7000 + i)))
        b.stmts.append(inner)
        block = b
    return block


def agree(res, out, good):
    return norm(res.text) == norm(out) and (res.rc == 0) == good and res.rc in (0, 1) and not res.crashed()


def run_block(block, seed, variant, inp=b""):
    src = render(block, seed)
    return src, tool(variant).a60(src, inp)


def describe(src, out, good, res):
    e, g = norm(out).split('\n'), norm(res.text).split('\n')
    i = 0
    for i, (p, q) in enumerate(zip(e + ['<end>'] * 5, g + ['<end>'] * 5)):
        if p != q:
            break
    return "the program's output differs from the meaning of the program: line %d expected %r got %r; expected exit %s got %s\n%s" % (
        i + 1, (e + ['<end>'] * 5)[i], (g + ['<end>'] * 5)[i], 0 if good else 1, res.rc, res.etext[-300:])


def shrink(block, seed, variant, budget=900):
    """A smaller program that still disagrees with the reference."""
    def fails(b):
        ev = {}
        it = lang.Interp(max_steps=30000, events=ev)
        try:
            out, good = it.run(b)
        except Exception:
            return False
        _, r = run_block(b, seed, variant)
        if r.timeout:
            return False
        return not agree(r, out, good)
    try:
        return reduce.shrink(block, fails, budget)
    except Exception:
        return block


def case(item):
    """item: [seed, cfg name, variant]"""
    seed, cname, variant = item[:3]
    cfg = dict(CFG[cname])
    if len(item) > 3:
        cfg.update(item[3])
    x, why = gen.make(seed, **cfg)
    if x is None:
        return skip(why)
    block, out, good, ev = x
    ev = dict(ev)
    block = wrap(block, seed, ev=ev)
    src, r = run_block(block, seed, variant)
    if r.timeout:
        return unsure("watchdog")
    ev["error-stop" if not good else "normal-end"] = 1
    ev["programs:" + variant] = 1
    if agree(r, out, good):
        return ok(case_hash(src), ev, nontrivial=out.count('\n') >= 2, sample={"seed": seed, "config": cname, "source": src[:1500],
                                                                              "output": out[:300]})
    msg = describe(src, out, good, r)
    small = src
    if not r.hang:
        b2 = shrink(block, seed, variant, 900)
        small = render(b2, seed)
        it = lang.Interp(max_steps=30000)
        try:
            o2, g2 = it.run(b2)
            _, r2 = run_block(b2, seed, variant)
            msg += "\nreduced program:\n%s\nreduced expected (exit %d):\n%s\nreduced got:\n%s" % (small, 0 if g2 else 1, o2, r2.brief())
        except Exception:
            pass
    return bad(case_hash(src), msg, {"program.a60": src, "reduced.a60": small, "expected.txt": out, "got.txt": r.brief()}, events=ev)


def mix(c, salt, n, weights, san=0.06):
    """Items: n programs over the configurations in weights, a share of them under the sanitizers."""
    items = []
    rng = random.Random(c.base_seed(salt))
    names = list(weights)
    w = [weights[k] for k in names]
    for s in c.seeds(salt, n):
        items.append([s, rng.choices(names, w)[0], "san" if rng.random() < san else "plain"])
    return items
