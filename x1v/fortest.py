"""P05: one for statement under the microscope.

Every kind of controlled variable (simple, own block, of an outer block, array element with a subscript that changes,
parameter by name), elements whose parts are functions that print when they are evaluated, and a body that changes the
variables the elements depend on and finally leaves by a goto.  The reference interpreter gives the expected log."""
import random

from . import lang
from .core import ok, bad, skip, unsure, case_hash
from .diff import agree, wrap, render, describe
from .lang import D, Block
from .num import R, X1Error, mk


def ilit(n):
    return ('num', n) if n >= 0 else ('neg', ('num', -n))


def rlit(n, d):
    """n / d for d a power of two."""
    e = d.bit_length() - 1
    v = ('num', mk(abs(n), -e))
    return v if n >= 0 else ('neg', v)


def build(seed):
    r = random.Random(seed)
    names = iter(r.sample(["a", "b", "c", "d", "e", "g", "h", "j", "k", "m", "p", "q", "r", "s", "t", "u", "w", "y", "z"], 19))
    kind = r.choice(["int", "int", "real", "real", "local", "elem", "elem", "relem", "formal", "formal", "felem", "value"])
    typ = 'r' if kind in ("real", "relem") or (kind in ("formal", "local", "value", "felem") and r.random() < .4) else 'i'
    V = D('var', next(names), typ)
    n, lim, stp, k, f = (D('var', next(names), 'i') for _ in range(5))
    x = D('var', next(names), 'r')
    flag = D('var', next(names), 'b')
    arr = D('arr', next(names), typ, bounds=[(ilit(-9), ilit(9))], ndim=1)
    out = D('label', 'out')
    # functions that report their evaluation and change things
    fi = D('proc', 'fi', 'i', params=[D('var', 'v', 'i', mode='value')], local=None)
    v = fi.params[0]
    eff = r.random()
    extra = [('assign', [('var', k)], ('bin', '+', ('var', k), ilit(1)))] if eff < .3 else []
    fi.body = ('comp', [('print', [ilit(7), ('var', v)]), ('nlcr',)] + extra + [('assign', [('fres', fi)], ('var', v))])
    fr_ = D('proc', 'fr', 'r', params=[D('var', 'v', 'r', mode='name')], local=None)
    fr_.body = ('comp', [('print', [ilit(8)]), ('nlcr',), ('assign', [('fres', fr_)], ('var', fr_.params[0]))])
    decls = [V, n, lim, stp, k, f, x, flag, arr, fi, fr_]

    # the controlled variable
    body_var = ('var', V)
    if kind in ("elem", "relem"):
        sub = r.choice([('var', k), ('var', k), ('bin', '+', ('var', k), ilit(1)), ('call', fi, [('var', k)]), ilit(2)])
        body_var = ('idx', arr, [sub])
    proc = None
    if kind in ("formal", "felem", "local", "value"):
        proc = D('proc', 'go', None, params=[], local=None)
        if kind == "local":
            body_var = ('var', D('var', 'lv', typ, local=proc))
        elif kind == "value":
            pv = D('var', 'pv', typ, mode='value')
            proc.params = [pv]
            body_var = ('var', pv)
        else:
            pv = D('var', 'pv', typ, mode='name')
            proc.params = [pv]
            body_var = ('var', pv)
    isint = typ == 'i'

    def num(lo, hi):
        m = r.random()
        c = r.randint(lo, hi)
        if m < .45 or (isint and m < .6):
            return ilit(c)
        if m < .8 or r.random() < .4:
            return rlit(r.randint(lo * 4, hi * 4), 4)
        return ('bin', '+', ilit(c), rlit(r.choice([1, 2, 3]), 4))

    def wrap(e):
        m = r.random()
        if m < .15:
            return ('call', fr_, [e])
        return e

    def iexpr(lo, hi, *vs):
        m = r.random()
        if m < .3 and vs:
            return ('var', r.choice(vs))
        if m < .45 and vs:
            return ('call', fi, [('var', r.choice(vs))])
        return wrap(num(lo, hi))

    elems = []
    # whether the subscript of the controlled variable is evaluated again when one element is exhausted and the next
    # one starts is not specified: one element only where that could be seen
    cnt = r.choice([1, 1, 2, 2, 3, 4])
    quiet = False
    if kind in ("elem", "relem", "felem"):
        if eff < .3 or r.random() < .4:
            cnt = 1
        else:
            quiet = True
            if body_var[0] == 'idx' and body_var[2][0][0] == 'call':
                body_var = ('idx', arr, [('var', k)])
    for _ in range(cnt):
        m = r.random()
        if m < .2:
            elems.append(('e', iexpr(-3, 6, lim, stp)))
        elif m < .4:
            cond = ('rel', r.choice('<≤≠>≥'), r.choice([('var', n), ('var', k), body_var]), iexpr(0, 9, lim))
            if r.random() < .4:
                cond = ('bop', r.choice('∧∨'), cond, ('var', flag))
            elems.append(('while', r.choice([('bin', '+', body_var, iexpr(-2, 3, stp)), iexpr(-3, 6, lim)]), cond))
        else:
            elems.append(('step', iexpr(-4, 5, lim), iexpr(-2, 3, stp, stp, k), iexpr(-5, 8, lim, lim, k)))
    if kind in ("elem", "relem", "felem") and elems[-1][0] == 'e' and not quiet:
        elems[-1] = ('step', num(-2, 2), ilit(r.choice([1, 2])), num(1, 5))    # likewise after the last element
    # the body: count, log, change
    stop_at = r.randint(6, 14)
    body = [('assign', [('var', n)], ('bin', '+', ('var', n), ilit(1))),
            ('if', ('rel', '>', ('var', n), ilit(stop_at)), ('goto', ('label', out)), None),
            ('print', [ilit(1), body_var]), ('nlcr',)]
    acts = [('assign', [('var', lim)], ('bin', r.choice('+-'), ('var', lim), ilit(r.randint(1, 3)))),
            ('assign', [('var', stp)], ('bin', r.choice('+-'), ('var', stp), ilit(1))),
            ('assign', [('var', stp)], ('neg', ('var', stp))),
            ('assign', [('var', k)], ('bin', r.choice('+-'), ('var', k), ilit(1))),
            ('assign', [body_var], ('bin', r.choice('+-'), body_var, num(0, 2))),
            ('assign', [('var', flag)], ('not', ('var', flag)))]
    for a in r.sample(acts, r.choice([0, 0, 1, 1, 2, 3])):
        if r.random() < .5:
            a = ('if', ('rel', r.choice(['=', '>', '≥']), ('var', n), ilit(r.randint(1, 6))), a, None)
        body.append(a)
    loop = ('for', body_var, elems, ('comp', body))
    if r.random() < .3:
        o = D('var', next(names), 'i')
        decls.insert(0, o)
        loop = ('for', ('var', o), [('step', ilit(1), ilit(1), ilit(2))], ('comp', [loop, ('print', [ilit(4), ('var', o)]), ('nlcr',)]))
    stmts = [('assign', [('var', V)], ilit(r.randint(-3, 3))), ('assign', [('var', n)], ilit(0)), ('assign', [('var', lim)], ilit(r.randint(-2, 6))),
             ('assign', [('var', stp)], ilit(r.choice([1, 1, 2, -1, -2, 0]))), ('assign', [('var', k)], ilit(r.randint(-3, 3))),
             ('assign', [('var', f)], ilit(0)), ('assign', [('var', x)], rlit(r.randint(-9, 9), 4)),
             ('assign', [('var', flag)], ('bool', r.random() < .5)),
             ('for', ('var', f), [('step', ilit(-9), ilit(1), ilit(9))], ('assign', [('idx', arr, [('var', f)])], ('var', f)))]
    tail = [('print', [ilit(2), ('var', lim), ('var', stp), ('var', k)]), ('nlcr',)]
    if proc is not None:
        b = Block()
        if kind == "local":
            b.decls = [body_var[1]]
            b.stmts = [('assign', [body_var], ilit(r.randint(-3, 3))), loop]
            proc.body = ('block', b)
        else:
            proc.body = loop
        decls.append(proc)
        arg = []
        if kind == "formal":
            arg = [('var', V)]
        elif kind == "value":
            arg = [ilit(1)]
        elif kind == "felem":
            arg = [('idx', arr, [r.choice([('var', k), ('bin', '-', ('var', k), ilit(1))] + ([] if quiet else [('call', fi, [('var', k)])]))])]
        stmts.append(('pcall', proc, arg))
    else:
        stmts.append(loop)
    blk = Block()
    blk.decls = decls
    blk.labels = [out]
    blk.stmts = stmts + [('print', [ilit(3)]), ('nlcr',), ('lbl', out, ('comp', tail))]
    return blk, kind, elems


def case(item):
    seed, variant = item
    blk, kind, elems = build(seed)
    ev = {}
    try:
        out, good = lang.Interp(max_steps=20000, events=ev).run(blk)
    except lang.Discard as x:
        return skip(str(x))
    blk = wrap(blk, seed, ev=ev)
    src = render(blk, seed)
    from .harness import tool
    r = tool(variant).a60(src)
    if r.timeout:
        return unsure("watchdog")
    ev = {k: v for k, v in ev.items() if k.startswith(('for', 'wrap'))}
    ev["variable:" + kind] = 1
    ev["left by goto" if '\n3\n' not in out and good else "run to the end"] = 1
    if agree(r, out, good):
        return ok(case_hash(src), ev, nontrivial=out.count('\n') > 3, sample={"seed": seed, "source": src[:1500], "output": out[:300]})
    return bad(case_hash(src), describe(src, out, good, r) + "\nprogram:\n" + src + "\nexpected:\n" + out + "\ngot:\n" + r.brief(),
               {"program.a60": src, "expected.txt": out, "got.txt": r.brief()})
