"""Programs with inputs from all generators, as a workload for the properties about the system around them."""
import glob
import random

from . import arrgen, build, calltest, diff, exprtest, failtest, fmttest, fortest, fuzz, gen, harness, inptest, numtest


class Captured(BaseException):
    def __init__(self, src, inp):
        self.src, self.inp = src, inp


def capture(fn, item):
    """The (source, input) of the first program that a case function runs; None if it runs none."""
    T = harness.Tool
    old = T.a60, T.sim_run, T.compile

    def a60(self, src, inp=b"", *a, **k):
        raise Captured(src, inp)

    def no(self, *a, **k):
        raise Captured(None, None)
    run1 = harness.run1

    def from_dir(cmd, cwd, inp=b"", **k):
        raise Captured(open(cwd + "/" + cmd[1], "rb").read(), inp)
    T.a60, T.sim_run, T.compile = a60, no, no
    harness.run1 = from_dir
    try:
        fn(item)
    except Captured as c:
        if c.src is None:
            return None
        return (c.src if isinstance(c.src, str) else c.src.decode('utf-8', 'surrogateescape')), c.inp
    except Exception:
        return None
    finally:
        T.a60, T.sim_run, T.compile = old
        harness.run1 = run1
    return None


def failing(s):
    r = random.Random(s)
    x, why = gen.make(s, **dict(diff.CFG["default"], errors=0.0))
    if x is None or not x[2] or x[1].count('\n') < 1:
        return None
    return failtest.with_error(x[0], r.choice(sorted(failtest.ERRORS)), r.randint(1, x[1].count('\n'))), b"1 2"


def _diff(cname):
    return lambda s: capture(diff.case, [s, cname, "plain"])


KINDS = {"diff:" + k: _diff(k) for k in diff.CFG}
KINDS.update({
    "calls": lambda s: capture(calltest.case, [s, "plain"]),
    "arrays": lambda s: capture(arrgen.case, [s, "plain"]),
    "operands": lambda s: capture(exprtest.case, [s, "plain"]),
    "for": lambda s: capture(fortest.case, [s, "plain"]),
    "input": lambda s: capture(inptest.case, [s, "plain"]),
    "copy": lambda s: capture(inptest.copy_case, [s, "plain"]),
    "format": lambda s: capture(fmttest.case, [s, "plain"]),
    "integers": lambda s: capture(numtest.int_case, [s, "plain"]),
    "reals": lambda s: capture(numtest.real_case, [s, "plain"]),
    "functions": lambda s: capture(numtest.fun_case, [s, "plain"]),
    "failing": lambda s: failing(s),
    "anything": lambda s: capture(fuzz.program_case, [s, "plain"]),
})


def example(s):
    fs = sorted(glob.glob(build.REPO + "/examples/**/*.a60", recursive=True))
    f = fs[s % len(fs)]
    return open(f, encoding='utf-8', errors='surrogateescape').read(), b"1 0 1\n2 3 5 7 11 13\n" * 4


KINDS["example"] = example


def program(seed, kinds=None):
    """(kind, source, input) or None."""
    r = random.Random(seed * 31 + 7)
    k = r.choice(kinds or sorted(KINDS))
    x = KINDS[k](seed)
    if x is None:
        return None
    return k, x[0], x[1]
