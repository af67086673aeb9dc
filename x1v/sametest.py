"""P18: the same program, compiled and run in many ways, behaves the same."""
import os
import random
import subprocess
import threading

from . import build, harness, work
from .core import bad, ok, skip, unsure, case_hash
from .libtest import U

NAMES = ["p.a60", "x.a60", "a name with blanks.a60", "ünïcode.a60", "p.q.r.a60", "./p.a60", "sub/p.a60", "ABS/p.a60", "sub/../p.a60", "A.a60", "$HOME;x.a60", "it's.a60"]
ENVS = [{}, {"LC_ALL": "C"}, {"LC_ALL": "C.UTF-8", "LANG": "de_DE.UTF-8"}, {"LC_ALL": "POSIX", "TZ": "Asia/Tokyo"}, {"MALLOC_PERTURB_": "165"},
        {"MALLOC_PERTURB_": "255", "MALLOC_ARENA_MAX": "1"}, {"HOME": "/"}, {"COLUMNS": "20", "TERM": "dumb", "LINES": "5"},
        {"MALLOC_MMAP_THRESHOLD_": "64", "MALLOC_TOP_PAD_": "0"}, {"POSIXLY_CORRECT": "1"}, {"X%d" % 1: "y" * 50000}, {"PWD": "/nowhere"}]


def put(path, data):
    os.makedirs(os.path.dirname(path) or ".", exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def get(path):
    try:
        with open(path, "rb") as f:
            return f.read()
    except OSError:
        return None


def piped(cmd, cwd, inp, env, r, cpu):
    """Input through a pipe in pieces, output through a pipe."""
    e = dict(os.environ)
    e.update(harness.SANENV)
    e.update(env)
    p = subprocess.Popen(cmd, cwd=cwd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e,
                         preexec_fn=harness._limits(cpu, 0, 64))
    step = r.choice((1, 3, 7, 100))

    def feed():
        try:
            for i in range(0, len(inp), step):
                os.write(p.stdin.fileno(), inp[i:i + step])
        except OSError:
            pass
        try:
            p.stdin.close()
        except OSError:
            pass
    th = threading.Thread(target=feed, daemon=True)
    th.start()
    err = []
    t2 = threading.Thread(target=lambda: err.append(p.stderr.read()), daemon=True)
    t2.start()
    out = p.stdout.read(8 << 20)
    try:
        p.wait(timeout=harness.WALL)
        to = False
    except subprocess.TimeoutExpired:
        to = True
        p.kill()
        p.wait()
    t2.join(10)
    th.join(10)
    return harness.Res(p.returncode, out[:4 << 20], err[0] if err else b"", to, p.returncode == -24)


def same(a, b):
    return a.rc == b.rc and a.out == b.out and a.err == b.err


def cc_messages(out):
    """Compiler output without the position that P_eof influences: compared as it is."""
    return out


def junk(r, d, name):
    """What earlier runs may have left behind."""
    k = r.randrange(5)
    stem = os.path.basename(name)[:-4] + ".x1"
    if k == 0:
        put(d + "/" + stem, b"NAME 0 0 0\n 9 29 0\n" + b"".join(b"%5d%10d\n" % (x, r.randrange(1 << 27)) for x in range(6000, 10165)))
    elif k == 1:
        put(d + "/" + stem, bytes(r.randrange(256) for _ in range(r.randrange(3000))))
    elif k == 2:
        put(d + "/" + stem, b"")
        put(d + "/x1algol.lib", b"30 1 2 3\n")
        put(d + "/core", b"x")
    elif k == 3:
        put(d + "/x1algc", b"#!/bin/sh\nexit 3\n")       # not on the path
        os.chmod(d + "/x1algc", 0o755)
        put(d + "/lib/x1algol.lib", b"junk")
    return "left-over-%d" % k


def case(item):
    seed, variant = item
    r = random.Random(seed)
    p = work.program(seed)
    if p is None:
        return skip("no program")
    kind, src, inp = p
    srcb = src.encode('utf-8', 'surrogateescape')
    if r.random() < .12:        # most of these are rejected
        i = r.randrange(len(srcb))
        srcb = srcb[:i] + srcb[i + r.choice((1, 2, 10)):]
    key = case_hash(srcb, inp)
    clock = b"TIMEOFDAY" in srcb
    t = harness.tool("plain")
    o = harness.tool(variant)
    ev = {}
    with harness.Scratch() as d:
        base_c = t.compile(d, srcb)
        with harness.Scratch() as d1:
            put(d1 + "/p.a60", srcb)
            base = harness.run1([t.sim, "p.a60"], d1, inp, env=t.env(), cpu=1)
            obj = get(d1 + "/p.x1")
        if base.hang or base.timeout or base_c.hang or base_c.timeout:
            return skip("runs long")
        fs = {"p.a60": srcb, "input": inp}
        compiled = base_c.rc == 0
        if compiled and obj != base_c.out:
            return bad(key, "x1sim writes another object program than the compiler prints", dict(fs, **{"p.x1": obj or b"", "cc.out": base_c.out}))
        ev["compiled" if compiled else "rejected"] = 1
        if base.rc == 0:
            ev["run-to-end"] = 1
        elif compiled:
            ev["run-time-error"] = 1
        ways = r.sample(["again", "stdin", "other", "x1", "x1", "pipe", "name", "env", "left", "perturb-cc", "args", "dir", "trace-free"], 6)
        for w in ways:
            what = w
            cres = res = None
            with harness.Scratch(prefix=r.choice(["x1v.", "x1v a b.", "x1v-" + "l" * 60 + "."])) as e:
                if w in ("again", "other"):
                    x = t if w == "again" else o
                    cres = x.compile(e, srcb)
                    put(e + "/q.a60", srcb)
                    res = x.sim_run(e, "q.a60", inp)
                elif w == "stdin":
                    cres = harness.run([t.cc], e, srcb, env=t.env())
                    if b"RESYM" in srcb or b"PRSYM" in srcb or b"SUM" in srcb or b"RANDOM" in srcb:
                        cres = None     # a source on standard input comes without a library
                elif w == "x1":
                    if not compiled:
                        continue
                    put(e + "/q.x1", base_c.out)
                    res = (o if r.random() < .3 else t).sim_run(e, "q.x1", inp, env=r.choice(ENVS))
                elif w == "pipe":
                    put(e + "/p.a60", srcb)
                    res = piped([t.sim, "p.a60"], e, inp, t.env(), r, t.cpu)
                elif w in ("name", "left", "dir"):
                    name = r.choice(NAMES).replace("ABS", e + "/abs dir")
                    put(name if name.startswith("/") else e + "/" + name, srcb)
                    what += " " + name
                    os.makedirs(e + "/sub", exist_ok=True)
                    if w == "left":
                        what += " " + junk(r, e, name)
                    env = t.env()
                    if w == "dir":      # the library found by another way
                        env = dict(t.env(), HOME=e)
                        env.pop("X1ALGOL_LIB")
                        put(e + "/.x1algol.lib", get(harness.LIB))
                        res = harness.run([t.sim, name], e, inp, env=env, cpu=t.cpu)
                    else:
                        res = t.sim_run(e, name, inp)
                    got = get(e + "/" + os.path.basename(name)[:-4] + ".x1")
                    if compiled and got != base_c.out:
                        return bad(key, "another object program in the way '%s'" % what, dict(fs, **{"a.x1": base_c.out, "b.x1": got or b""}))
                    ev["objects"] = ev.get("objects", 0) + 1
                elif w == "env":
                    put(e + "/p.a60", srcb)
                    env = r.choice(ENVS)
                    what += " " + str(env)[:60]
                    res = t.sim_run(e, "p.a60", inp, env=env)
                elif w == "perturb-cc":
                    put(e + "/p.a60", srcb)
                    env = r.choice(ENVS)
                    what += " " + str(env)[:60]
                    cres = harness.run([t.cc, "p.a60", harness.LIB], e, env=dict(t.env(), **env))
                elif w == "args":
                    put(e + "/p.a60", srcb)
                    put(e + "/my lib", get(harness.LIB))
                    res = t.sim_run(e, "p.a60", inp, libs=["my lib"])
                elif w == "trace-free":
                    put(e + "/p.a60", srcb)
                    # limits of the process do not matter
                    res = harness.run(["sh", "-c", "ulimit -n 20; ulimit -s 2048; exec \"$0\" p.a60", t.sim], e, inp, env=t.env(), cpu=t.cpu)
            for x in (cres, res):
                if x is not None and (x.hang or x.timeout):
                    x.out = None
            if cres is not None and cres.out is not None:
                ev["compilations"] = ev.get("compilations", 0) + 1
                if cres.crashed() or (cres.rc, cres.out) != (base_c.rc, base_c.out):
                    return bad(key, "the compiler gives another result (%s)\n%s\n---- instead of\n%s" % (what, cres.brief(), base_c.brief()), fs)
            if res is not None and res.out is not None and not clock:
                ev["runs"] = ev.get("runs", 0) + 1
                ev["way:" + w] = ev.get("way:" + w, 0) + 1
                if not same(res, base):
                    return bad(key, "the program runs differently (%s)\n%s\n---- instead of\n%s" % (what, res.brief(), base.brief()), fs)
    return ok(key, ev, nontrivial=compiled and len(base.out) > 0, sample={"kind": kind, "ways": ways}, n=len(ways))


def valgrind_case(item):
    """No decision and no output depends on memory never set."""
    seed, variant = item
    p = work.program(seed)
    if p is None:
        return skip("no program")
    kind, src, inp = p
    srcb = src.encode('utf-8', 'surrogateescape')
    key = case_hash("vg", srcb, inp)
    t = harness.tool("plain")
    if b"TIMEOFDAY" in srcb:
        return skip("clock")
    with harness.Scratch() as d:
        put(d + "/p.a60", srcb)
        base = harness.run1([t.sim, "p.a60"], d, inp, env=t.env(), cpu=1)
        if base.hang or base.timeout or not os.path.exists(d + "/p.x1"):
            return skip("runs long, or not compiled")
        c = harness.run(["valgrind", "-q", "--error-exitcode=97", t.cc, "p.a60", harness.LIB], d, env=t.env(), cpu=20)
        v = harness.run(["valgrind", "-q", "--error-exitcode=97", t.sim, "p.x1"], d, inp, env=t.env(), cpu=20)
    fs = {"p.a60": srcb, "input": inp}
    for n, x in (("compiler", c), ("simulator", v)):
        if x.hang or x.timeout:
            return skip("runs long")
        if x.rc == 97 or b"== Invalid" in x.err or b"uninitialised" in x.err:
            return bad(key, "the %s uses memory that was never set, or is not its own\n%s" % (n, x.brief()), fs)
    # valgrind computes long double with 64 bits only: its results are not compared
    return ok(key, {"valgrind": 1})


def random_case(item):
    """RANDOM after SETRANDOM(s) is a function of s alone."""
    seed, variant = item
    r = random.Random(seed)
    s = r.choice(["0.5", "0", "1", "0.1", "0.%d" % r.randrange(1, 10 ** 9), "%d.%d" % (r.randrange(1000), r.randrange(1000)), "-0.3", "0.99999999999", "1/3",
                  "⏨-5"])
    n = r.randrange(1, 30)
    pre = "{for} i := 1 {step} 1 {until} %d {do} y := RANDOM; " % r.randrange(0, 50)
    how = r.choice(["SETRANDOM(%s)", "y := %s; SETRANDOM(y)", "seed(%s)"]) % s
    dec = "{begin} {integer} i; {real} y; {procedure} seed(x); {value} x; {real} x; SETRANDOM(x); "
    body = "{for} i := 1 {step} 1 {until} %d {do} print(RANDOM)" % n
    t, o = harness.tool("plain"), harness.tool(variant)
    progs = [dec + how + "; " + body + " {end}", dec + pre + how + "; " + body + " {end}",
             dec + how + "; {begin} {real} {array} A[1:%d]; {for} i := 1 {step} 1 {until} %d {do} A[i] := RANDOM; "
             "{for} i := 1 {step} 1 {until} %d {do} print(A[i]) {end} {end}" % (n, n, n)]
    progs.append(dec + how + "; " + pre + how + "; " + body + " {end}")
    key = case_hash("random", how, n)
    outs = []
    ps = [U(p) for p in progs]
    for i, p in enumerate(ps):
        x = (t if r.random() < .7 else o).a60(p)
        if x.rc or x.crashed():
            return bad(key, "a program with RANDOM fails\n" + x.brief(), {"p.a60": p})
        outs.append(x.out)
    if len(set(outs)) != 1:
        i = next(i for i, x in enumerate(outs) if x != outs[0])
        return bad(key, "RANDOM after %s gives different sequences:\n%s\n%s" % (how, outs[0].decode(), outs[i].decode()), {"a.a60": ps[0], "b.a60": ps[i]})
    # without a seed: also the same in each run
    q = U("{begin} {integer} i; " + body + " {end}")
    a, b = t.a60(q), o.a60(q)
    if not same(a, b):
        return bad(key, "RANDOM without SETRANDOM differs from run to run\n%s\n%s" % (a.brief(), b.brief()), {"p.a60": q})
    return ok(key, {"sequences": 4, "unseeded": 2})
