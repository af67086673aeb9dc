"""Failures of every step: what comes out, and that nothing runs afterwards."""
import os
import random
import re
import resource
import signal
import stat
import subprocess

from . import build, diff, fuzz, gen, harness, lang, mutate
from .core import ok, bad, skip, unsure, case_hash
from .harness import Scratch, tool
from .numtest import U

# statements that must end the program with an error: (declarations, statement)
ERRORS = {
    "integer division by zero": ("{integer} eQ;", "eQ:=0; eQ:=7÷eQ"),
    "real division by zero": ("{real} eQ;", "eQ:=0.5; eQ:=eQ-0.5; eQ:=1.5/eQ"),
    "sqrt": ("{real} eQ;", "eQ:=-2.5; eQ:=sqrt(eQ)"),
    "ln": ("{real} eQ;", "eQ:=0; eQ:=ln(eQ)"),
    "exp": ("{real} eQ;", "eQ:=1400; eQ:=exp(eQ)×exp(eQ)"),
    "integer overflow": ("{integer} eQ;", "eQ:=67108863; eQ:=eQ+1"),
    "integer underflow": ("{integer} eQ;", "eQ:=-67108863; eQ:=eQ-1"),
    "real overflow": ("{real} eQ;", "eQ:=1⏨600; eQ:=eQ×1⏨17"),
    "entier": ("{integer} eQ;", "eQ:=entier(1.5⏨9)"),
    "assignment": ("{integer} eQ;", "eQ:=1⏨8×3.5"),
    "power": ("{real} eQ;", "eQ:=-2.5; eQ:=eQ↑0.5"),
    "power zero": ("{integer} eQ;", "eQ:=0; eQ:=eQ↑(-1)"),
    "index": ("{array} eQ[1:3];", "eQ[4]:=1"),
    "index low": ("{array} eQ[1:3]; {real} fQ;", "fQ:=eQ[-7]"),
    "bounds": ("{integer} eQ;", "eQ:=-5; {begin} {array} fQ[1:eQ]; fQ[1]:=2 {end}"),
    "read": ("{real} eQ;", "eQ:=read; eQ:=read; eQ:=read"),
    "recursion": ("{integer} eQ; {procedure} fQ(a); {value} a; {integer} a; fQ(a+1);", "fQ(1)"),
    "subscripts": ("{array} eQ[0:2,0:2]; {procedure} fQ(a); {array} a; a[1]:=1;", "fQ(eQ)"),
}


def with_error(block, kind, k):
    """The program's text with a counter; at the k-th NLCR the error is raised."""
    toks = [t for t in lang.tokens(block) if t[0] != 'nl']
    out = []
    for t in toks:
        out.append(t)
        if t == ('id', 'NLCR'):
            out += [('o', ';'), ('id', 'tickQ')]
    inner = lang.render(out)
    decl, stat = ERRORS[kind]
    return U("{begin} {integer} cntQ; " + decl + " {procedure} tickQ; {begin} cntQ:=cntQ+1; {if} cntQ=%d {then} {begin} " % k + stat +
             " {end} {end}; cntQ:=0; ") + inner + U("; PRINTTEXT(`the end') {end}")


def runtime_case(item):
    """An error at a chosen point of a generated program: output is kept up to there, nothing after."""
    seed, cname, variant = item
    r = random.Random(seed)
    x, why = gen.make(seed, **dict(diff.CFG[cname], errors=0.0))
    if x is None:
        return skip(why)
    block, out, good, _ = x
    if not good:
        return skip("ends with an error by itself")
    n = out.count('\n')
    if n < 2:
        return skip("no output")
    ev = {}
    key = case_hash(seed, cname)
    lines = out.split('\n')
    for kind in [None] + r.sample(sorted(ERRORS), 2):
        k = r.choice([1, n, r.randint(1, n)]) if kind else n + 1
        src = with_error(block, kind or "index", k)
        want = '\n'.join(lines[:k]) + '\n' if kind else out + "the end"
        # the procedure's first input is a text that is no number
        res = tool(variant).a60(src, r.choice([b"", b"1 2"]))
        if res.timeout:
            return unsure("watchdog")
        f = {"program.a60": src, "expected.txt": want, "got.txt": res.brief()}
        if res.rc == 1 and "stop 6" in res.etext or b"compiler" in res.err:
            return skip("too large with the counter")
        if diff.norm(res.text) != diff.norm(want):
            return bad(key, "output around a run-time error (%s at line %d): expected %r... got %r" % (kind, k, want[-60:], res.text[-80:]), f, events=ev)
        if kind is None:
            if res.rc != 0 or res.err:
                return bad(key, "a complete run gives status %s and messages %r" % (res.rc, res.etext), f, events=ev)
            ev["complete runs"] = 1
        else:
            if res.rc == 0 or res.crashed() or res.hang or not re.match(r"Error: \S", res.etext):
                return bad(key, "run-time error (%s): status %s, messages %r" % (kind, res.rc, res.etext), f, events=ev)
            ev["run-time errors"] = ev.get("run-time errors", 0) + 1
            ev["error " + kind] = 1
    return ok(key, ev, n=3, sample={"seed": seed, "lines": n})


MARK = "{begin} PRINTTEXT(`%s'); print(%s) {end}"


def run_sim(d, args, variant="plain", env=None, inp=b"", pre=None, stdout=None, cpu=10):
    """x1sim with full control; (status, stdout, stderr)"""
    e = dict(os.environ)
    e.update(harness.SANENV)
    e.update(tool(variant).env())
    for k, v in (env or {}).items():
        if v is None:
            e.pop(k, None)
        else:
            e[k] = v

    def setup():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 1))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        for q in (signal.SIGHUP, signal.SIGINT, signal.SIGQUIT, signal.SIGTERM, signal.SIGPIPE, signal.SIGXFSZ):
            signal.signal(q, signal.SIG_DFL)
        if pre:
            pre()
    try:
        p = subprocess.run([tool(variant).sim] + args, cwd=d, input=inp, env=e, stdout=stdout if stdout is not None else subprocess.PIPE,
                           stderr=subprocess.PIPE, preexec_fn=setup, timeout=100, restore_signals=False)
    except subprocess.TimeoutExpired:
        return None
    return harness.Res(p.returncode, p.stdout or b"", p.stderr)


def failed(key, res, what, ev, files=None):
    """The verdict for a run that must fail without executing anything."""
    f = dict(files or {}, **{"got.txt": res.brief()})
    if res.crashed():
        return bad(key, "%s: x1sim crashed: %s" % (what, res.etext[-600:]), f, events=ev)
    if res.rc == 0:
        return bad(key, "%s: exit status zero" % what, f, events=ev)
    if not res.err.strip():
        return bad(key, "%s: no message on standard error" % what, f, events=ev)
    if res.out:
        return bad(key, "%s: something was executed or printed: %r" % (what, res.text[:200]), f, events=ev)
    ev[what] = ev.get(what, 0) + 1
    return None


def write(p, s, mode=None):
    with open(p, "wb") as f:
        f.write(s if isinstance(s, bytes) else s.encode())
    if mode:
        os.chmod(p, mode)


def compile_case(item):
    """Sources with errors, run with a stale object program of the same name in place: nothing may be executed."""
    seed, variant = item
    r = random.Random(seed)
    ev = {}
    n = 0
    for i in range(4):
        src = fuzz.source(r)
        key = case_hash(seed, i)
        with Scratch() as d:
            t = tool(variant)
            x = t.compile(d, src)
            if x.timeout or x.hang or x.crashed():
                return unsure("compiler")
            if x.rc == 0:
                continue
            st = r.randrange(3)
            if st:
                y = t.compile(d, U(MARK % ("stale", "1")), name="s.a60")
                write(d + "/p.x1", y.out if st == 1 else y.out[:len(y.out) * 2 // 3])
            res = t.sim_run(d, "p.a60", b"1 2 3")
            if res.timeout:
                return unsure("watchdog")
            v = failed(key, res, "compile error", ev, {"program.a60": src})
            if v:
                return v
            ev["stale object in place"] = ev.get("stale object in place", 0) + bool(st)
            n += 1
    return ok(case_hash(seed), ev, n=max(n, 1), nontrivial=n > 0, sample={"seed": seed})


def fake(d, text):
    os.mkdir(d + "/bin")
    write(d + "/bin/x1algc", "#!/bin/sh\n" + text + "\n", 0o755)
    return {"PATH": d + "/bin:/usr/bin:/bin"}


def fault_case(item):
    """One injected fault. [kind, parameter, variant]"""
    kind, par, variant = item
    r = random.Random(case_hash(kind, par))
    key = case_hash(kind, par)
    ev = {}
    src = U(MARK % ("run", "SUM(i,1,3,i)")).replace(" PRINTTEXT", " _i_n_t_e_g_e_r i; PRINTTEXT", 1)
    with Scratch() as d:
        t = tool(variant)
        write(d + "/p.a60", src)
        good = t.compile(d, None).out
        stale = t.compile(d, U(MARK % ("stale", "1")), name="s.a60").out
        os.unlink(d + "/s.a60")
        if r.random() < .6:
            write(d + "/p.x1", stale)
        env, args, pre, out = {}, ["p.a60"], None, None
        lib = build.REPO + "/library/x1algol.lib"
        if kind == "compiler missing":
            env["PATH"] = d
        elif kind == "compiler not executable":
            env = fake(d, "")
            os.unlink(d + "/bin/x1algc")
            if par == 0:
                write(d + "/bin/x1algc", "no program at all", 0o755)
            elif par == 1:
                os.mkdir(d + "/bin/x1algc")
            else:
                write(d + "/bin/x1algc", "\x7fELFgarbage", 0o755)
            env["PATH"] = d + "/bin"
        elif kind == "compiler status":
            write(d + "/good", good)
            env = fake(d, "cat %s/good; exit %d" % (d, par))
        elif kind == "compiler status, no output":
            env = fake(d, "exit %d" % par)
        elif kind == "compiler killed":
            write(d + "/good", good)
            env = fake(d, "cat %s/good; kill -%d $$; sleep 1; exit 0" % (d, par))
        elif kind == "compiler writes nothing":
            env = fake(d, "exit 0")
        elif kind == "source missing":
            os.unlink(d + "/p.a60")
        elif kind == "source is a directory":
            os.unlink(d + "/p.a60")
            os.mkdir(d + "/p.a60")
        elif kind == "source empty":
            write(d + "/p.a60", b"")
        elif kind == "source cut":
            b = src.encode()[:src.encode().rindex(b"_e_n_d")]
            write(d + "/p.a60", b[:len(b) * par // 100])
        elif kind == "unknown extension":
            n = ["p", "p.alg", "p.A60", "p.x1.txt", "p.", "p.a60x", "x1", "a60", ".a60x", "p.x11"][par]
            write(d + "/" + n, src if par % 2 else good)
            args = [n]
        elif kind == "object missing":
            args = ["q.x1"]
        elif kind == "object is a directory":
            os.mkdir(d + "/q.x1")
            args = ["q.x1"]
        elif kind == "object empty":
            write(d + "/q.x1", ["", "\n", "\n\n\n", " ", "abc 1 2 3\n\n", "10144 5\n"][par])
            args = ["q.x1"]
        elif kind == "object without entry":
            write(d + "/q.x1", '\n'.join(l for l in good.decode().split('\n') if fuzz.OBJLINE.match(l)))
            args = ["q.x1"]
        elif kind == "object line damaged":
            L = good.decode().split('\n')
            i = r.choice([i for i, l in enumerate(L) if fuzz.OBJLINE.match(l)])
            a, w = L[i].split()
            L[i] = [a, "", a + " x", "x " + w, a + " " + w + " z", a + " -", a + " 999999999999999", "99999 " + w, "-5 " + w, a + "," + w, " ", a + " " + w + " 7 8"][par]
            if L[i].strip() == "":
                L[i] = "?"
            write(d + "/q.x1", '\n'.join(L))
            args = ["q.x1"]
        elif kind == "object cannot be written":
            if os.path.exists(d + "/p.x1"):
                os.unlink(d + "/p.x1")
            if par == 0:
                os.mkdir(d + "/p.x1")
            elif par == 1:
                os.symlink(d + "/none/p.x1", d + "/p.x1")
            else:
                os.symlink("p.x1", d + "/p.x1")
        elif kind == "object cut by a full disk":
            size = int(len(good) * par / 100)

            def pre():
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (size, size))
        elif kind == "object cut by the file size limit":
            size = int(len(good) * par / 100)

            def pre():
                resource.setrlimit(resource.RLIMIT_FSIZE, (size, size))
        elif kind == "library missing":
            if par == 0:
                env["X1ALGOL_LIB"] = d + "/none.lib"
            elif par == 1:
                args.append("none.lib")
            elif par == 2:
                env["X1ALGOL_LIB"] = ""
            elif par == 3:
                os.mkdir(d + "/h")
                env["X1ALGOL_LIB"] = d
        elif kind == "library without the procedure":
            s = [build.REPO + "/library/" + n for n in ("even.lib", "printtext.lib", "resym.lib", "prsym.lib", "random.lib")]
            s = [x for x in s if os.path.exists(x)]
            if not s:
                return skip("no libraries")
            args.append(s[par % len(s)])
        elif kind == "library cut":
            b = open(lib, "rb").read()
            write(d + "/l.lib", b[:len(b.split(b"\n")[0]) + par])
            args.append("l.lib")
        elif kind == "library garbage":
            write(d + "/l.lib", [b"", b"garbage", b"\0" * 500, b"1 2 3 4 5 6 7\n" * 9, bytes(r.randrange(256) for _ in range(500))][par])
            args.append("l.lib")
        elif kind == "extra arguments":
            write(d + "/q.x1", good)
            args = ["q.x1", ["p.a60", "x.lib", "q.x1"][par]]
        elif kind == "trace file cannot be written":
            args = [["--trace=none/t"], ["--trace=."], ["-d", "--trace=none/t"]][par] + args
        elif kind == "wrong usage":
            args = [[], ["-d"], ["--nonsense", "p.a60"], ["-x", "p.a60"], ["--trace"], ["p.a60", "--bad"], ["-dX", "p.a60"]][par]
        elif kind == "output full":
            # executed, but its output is lost: must be told
            write(d + "/q.x1", good)
            with open("/dev/full", "wb") as o:
                res = run_sim(d, ["q.x1" if par else "p.a60"], variant, stdout=o)
            if res is None:
                return unsure("watchdog")
            v = failed(key, res, kind, ev)
            return v or ok(key, ev)
        else:
            raise AssertionError(kind)
        res = run_sim(d, args, variant, env, pre=pre)
        if res is None:
            return unsure("watchdog")
        v = failed(key, res, kind, ev, {"fault.txt": repr(item)})
        if v:
            v["msg"] = "%s (%s)" % (v["msg"], par)
            return v
    return ok(key, ev, sample={"fault": kind, "parameter": par, "message": res.etext[:200]})


def faults(c):
    q = c.tier == "quick"
    L = []

    def add(kind, pars, more=None):
        for p in pars if q or more is None else more:
            L.append([kind, p])
    add("compiler missing", [0, 1])
    add("compiler not executable", [0, 1, 2])
    add("compiler status", [1, 2, 3, 4, 5, 6, 7, 99, 126, 127, 128, 254, 255], range(1, 256))
    add("compiler status, no output", [1, 2, 3, 4, 5, 6, 127, 255], range(1, 256))
    add("compiler killed", [1, 2, 3, 4, 6, 8, 9, 11, 13, 15], [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 24, 25, 30])
    add("compiler writes nothing", [0])
    add("source missing", [0, 1, 2])
    add("source is a directory", [0, 1])
    add("source empty", [0])
    add("source cut", list(range(0, 101, 8)), range(0, 101))
    add("unknown extension", range(10))
    add("object missing", [0])
    add("object is a directory", [0])
    add("object empty", range(6))
    add("object without entry", [0])
    add("object line damaged", [0, 2, 3, 5, 9])
    add("object cannot be written", range(3))
    add("object cut by a full disk", [0, 1, 10, 30, 50, 60, 70, 80, 90, 95, 99], range(0, 100))
    add("object cut by the file size limit", [0, 1, 10, 50, 80, 99], range(0, 100))
    add("library missing", range(4))
    add("library without the procedure", range(5))
    add("library cut", [0, 10, 50, 100, 150], range(0, 160, 3))
    add("library garbage", range(5))
    add("extra arguments", range(3))
    add("trace file cannot be written", range(3))
    add("wrong usage", range(7))
    add("output full", [0, 1])
    return L
