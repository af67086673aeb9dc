"""P22: command lines of x1sim and x1algc: what they print, which library they take, and what happens to the files."""
import os
import random
import re
import shutil
import stat

from . import build, harness, libtest
from .core import bad, ok, skip, unsure, case_hash
from .harness import Scratch, tool
from .libtest import U


# ---------------------------------------------------------------- the state of a directory tree
def snapshot(*roots):
    out = {}
    for root in roots:
        for d, ds, fs in os.walk(root):
            for n in ds + fs:
                p = os.path.join(d, n)
                st = os.lstat(p)
                if stat.S_ISLNK(st.st_mode):
                    out[p] = ("link", os.readlink(p))
                elif stat.S_ISDIR(st.st_mode):
                    out[p] = ("dir", stat.S_IMODE(st.st_mode))
                else:
                    with open(p, "rb") as f:
                        out[p] = ("file", stat.S_IMODE(st.st_mode), st.st_mtime_ns, f.read())
    return out


def changes(a, b):
    return sorted(p for p in set(a) | set(b) if a.get(p) != b.get(p))


# ---------------------------------------------------------------- libraries that can be told apart
SUMWORDS = None


def library(marker, procs=("SUM", "RESYM", "PRSYM", "RANDOM", "SETRANDOM"), binary=False):
    """A library whose SUM starts with the marker instead of 0."""
    global SUMWORDS
    if SUMWORDS is None:
        SUMWORDS = libtest.read_src(os.path.join(build.REPO, "library", "sum.src"))
        assert SUMWORDS[52] == (0, 0), SUMWORDS[52]
    heps = []
    for p in procs:
        if p == "SUM":
            w = list(SUMWORDS)
            w[52] = (0, marker)
            heps += libtest.encode(0, w)
        else:
            n = {"RESYM": 7, "PRSYM": 8, "RANDOM": 17, "SETRANDOM": 18}[p]
            heps += libtest.encode(n, libtest.read_src(os.path.join(build.REPO, "library", p.lower() + ".src")))
    if binary:
        return bytes(heps)
    return "".join("%d\n" % h for h in heps).encode()


NAMES = ["p", "prog", "a.b", "a.b.c", "p.x1", "p.a60", "with space", "-x", "--help", "-d", "q'uote", 'q"uote', "$(touch evil)", "a;b", "ü", "算", "*", "a\\b", "x" * 120, "P", "p.A60", "~", "%s%n", "."
         "hidden", "1", "new\nline", "tab\t"]
WORD = re.compile(r"^\s*\d+\s+\d+$")


def obj_lines(b):
    return [l.split() for l in b.decode(errors="replace").split("\n") if l.strip()]


class World:
    def __init__(self, d, r, t):
        self.d, self.r, self.t = d, r, t
        self.cwd = os.path.join(d, r.choice(["work", "work dir", "w/x/y"]))
        self.src = os.path.join(d, "src")
        self.home = os.path.join(d, "home")
        self.pre = os.path.join(d, "pre/fix")
        self.bin = os.path.join(self.pre, r.choice(["bin", "bin", "sim"]))
        for p in (self.cwd, self.src, self.home, self.bin, self.d + "/etc"):
            os.makedirs(p, exist_ok=True)
        shutil.copy(t.sim, self.bin + "/x1sim")
        for i in range(r.randrange(4)):       # bystanders
            self.put(os.path.join(r.choice([self.cwd, self.src, self.home, self.bin]), r.choice(["p.lst", "x", "core", "a.out", "other.x1", "other.a60", "trace", "x1.out", ".p.swp"])), b"keep me %d\n" % i)

    def put(self, p, data):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode())

    def env(self, **kw):
        e = {"PATH": self.t.dir + ":/usr/bin:/bin", "HOME": self.home, "TMPDIR": self.d + "/etc"}
        e.update(kw)
        return e

    def run(self, cmd, inp=b"", **kw):
        env = dict(kw.pop("env", None) or self.env())
        # harness.run adds to the environment of this process
        un = [k for k in ("X1ALGOL_LIB", "HOME") if k not in env]
        if un:
            cmd = ["env"] + sum((["-u", k] for k in un), []) + cmd
        return harness.run(cmd, self.cwd, inp, env=env, cpu=self.t.cpu, **kw)


def text_program(r):
    """(source, needs a library, output without the marker's part as a function of the marker)"""
    a, b = r.randrange(1000), r.randrange(1000)
    k = r.randrange(4)
    if k == 0:
        return U("{begin} print(%d + %d) {end}\n" % (a, b)), False, lambda m: "%d" % (a + b), b""
    if k == 1:
        return U("{begin} {integer} i; print(SUM(i, 1, 3, %d)) {end}\n" % a), True, lambda m: "%d" % (3 * a + m), b""
    if k == 2:
        return U("{begin} {integer} i; i := read; print(SUM(i, 1, 0, i) + %d); NLCR; PRINTTEXT(`ok') {end}\n" % a), True, lambda m: "%d\nok" % (m + a), b"%d\n" % b
    return U("{begin} {integer} i, j; PRSYM(10); print(SUM(i, 1, 2, SUM(j, 1, 2, i))) {end}\n"), True, lambda m: "a%d" % (3 * m + 6), b""


def arrange(r, files, opts):
    """Options anywhere among the files, which keep their order."""
    out = list(files)
    for o in opts:
        i = r.randrange(len(out) + 1)
        while 0 < i < len(out) + 1 and i > 0 and out[i - 1] in ("-T", "--trace"):
            i -= 1
        out[i:i] = o
    return out


def sim_case(item):
    """x1sim with a source: library, options, object file, other files."""
    seed, variant = item
    r = random.Random(seed)
    t = tool(variant)
    with Scratch() as d:
        w = World(d, r, t)
        ev = {}
        name = r.choice(NAMES) + ".a60"
        src, needs, out, inp = text_program(r)
        where = r.choice(["here", "here", "dot", "abs", "up", "sub"])
        if name.startswith(("-", ".")) and where == "here":
            where = "dot"
        path, arg = {"here": (os.path.join(w.cwd, name), name), "dot": (os.path.join(w.cwd, name), "./" + name), "abs": (os.path.join(w.src, name),) * 2,
                     "up": (os.path.join(w.src, name), os.path.relpath(w.src, w.cwd) + "/" + name), "sub": (os.path.join(w.cwd, "sub", name), "sub/" + name)}[where]
        w.put(path, src)
        stem = name[:-4]
        obj = os.path.join(w.cwd, stem + ".x1")
        if r.random() < .4 and not os.path.exists(obj):
            w.put(obj, r.choice([b"", b"old contents\n", b"100 5\n" * 3000]))
            ev["object file existed"] = 1
        # libraries
        markers = {}
        def lib(p, procs=("SUM", "RESYM", "PRSYM", "RANDOM", "SETRANDOM")):
            m = r.randrange(1000, 60000000)
            while m in markers.values():
                m += 1
            markers[p] = m
            w.put(p, library(m, procs))
            return p
        env = w.env()
        places = []
        if r.random() < .4:
            p = lib(os.path.join(d, "etc", r.choice(["my.lib", "x1algol.lib", "l ib"])))
            if r.random() < .12:
                os.remove(p)
                markers[p] = None
            env["X1ALGOL_LIB"] = p if r.random() < .7 else os.path.relpath(p, w.cwd)
            places.append(p)
            ev["X1ALGOL_LIB"] = 1
        if r.random() < .5:
            places.append(lib(os.path.join(w.home, ".x1algol.lib")))
        nohome = r.random() < .15
        if nohome:
            env.pop("HOME")
            places = [p for p in places if not p.startswith(w.home)]
        if r.random() < .6:
            places.append(lib(os.path.join(w.pre, "lib", "x1algol.lib")))
        if r.random() < .6:
            places.append(lib(os.path.join(d, "pre", "library", "x1algol.lib")))
        libs = []
        if r.random() < .4:
            for i in range(r.choice([1, 1, 2, 3])):
                procs = ("SUM", "RESYM", "PRSYM", "RANDOM", "SETRANDOM") if r.random() < .6 else tuple(x for x in ("SUM", "RESYM", "PRSYM", "RANDOM", "SETRANDOM") if r.random() < .6)
                procs = procs or ("PRSYM",)         # an empty file is not a library
                libs.append((lib(os.path.join(d, r.choice(["etc", "src"]), "lib%d" % i + r.choice([".lib", "", ".a60", ".x1"])), procs), procs))
        # the executable
        call = r.choice(["abs", "rel", "bin", "here", "link"])
        if call == "abs":
            exe, cwd = w.bin + "/x1sim", w.cwd
        elif call == "rel":
            exe, cwd = os.path.relpath(w.bin, w.cwd) + "/x1sim", w.cwd
        elif call == "bin" and where != "here" and where != "dot" and where != "sub":
            exe, cwd = os.path.basename(w.bin) + "/x1sim", w.pre
        elif call == "here" and where != "here" and where != "dot" and where != "sub":
            exe, cwd = "./x1sim", w.bin
        else:
            os.makedirs(os.path.join(w.pre, "links"))
            os.symlink(w.bin + "/x1sim", os.path.join(w.pre, "links", "x1sim"))
            exe, cwd = os.path.join(w.pre, "links", "x1sim"), w.cwd
        if cwd != w.cwd:
            if os.path.lexists(obj):
                os.remove(obj)
            arg = path
            libs = [(p, q) for p, q in libs]
            obj = os.path.join(cwd, stem + ".x1")
            if "X1ALGOL_LIB" in env:
                env["X1ALGOL_LIB"] = places[0]
            w.cwd = cwd
        ev["called " + call] = 1
        # options
        opts, trace, debug = [], None, False
        if r.random() < .35:
            trace = os.path.join(d, "etc", "trace.out") if r.random() < .5 else "t.trace"
            opts.append(r.choice([["--trace=" + trace], ["-T", trace], ["-T" + trace], ["--trace", trace]]))
            if r.random() < .7:
                debug = True
        if debug:
            opts.append([r.choice(["-d", "--debug"])])
        elif trace is None and r.random() < .1:
            opts.append(["-d"])
            debug = True
        cmd = [exe] + arrange(r, [arg] + [p if r.random() < .5 else os.path.relpath(p, w.cwd) for p, _ in libs], opts)
        # what is documented
        fail = None
        marker = 0
        if libs:
            ev["library arguments"] = 1
            first = [p for p, q in libs if "SUM" in q]
            if needs:
                need = {"SUM"} | ({"PRSYM"} if "PRSYM" in src else set())
                if need - set(x for _, q in libs for x in q):
                    fail = "a procedure is in none of the libraries"
                else:
                    marker = markers[first[0]]
        elif places:
            marker = markers[places[0]]
            ev["library by default"] = 1
            if marker is None and needs:
                fail = "X1ALGOL_LIB names no file"
            ev["place %s" % ("X1ALGOL_LIB" if "X1ALGOL_LIB" in env else places[0][len(d):].replace("/", " "))] = 1
        else:
            fail = "no library"
            if os.path.exists("/usr/local/lib/x1algol.lib"):
                return skip("a library is installed")
        before = snapshot(d)
        res = w.run(cmd, inp, env=env)
        if res.timeout:
            return unsure("watchdog")
        after = snapshot(d)
        ev["command lines:" + variant] = 1
        ev["files watched"] = len(before)
        key = case_hash(repr([a.replace(d, "") for a in cmd]) + src + repr(sorted(k.replace(d, "") for k in markers)))
        info = "command line: %r in %s\nenvironment: %r\nlibraries: %r\nsource:\n%s" % (cmd, w.cwd, {k: env[k] for k in env if k != "PATH"}, markers, src)

        def no(msg):
            return bad(key, msg.replace(d, "D") + "\n" + info.replace(d, "D"), {"case.txt": info, "got.txt": res.brief()})
        if res.crashed():
            return no("crash: " + res.brief()[-300:])
        allowed = {obj}
        tf = None
        if trace:
            tf = os.path.join(w.cwd, trace)
            allowed.add(tf)
        wrong = [p for p in changes(before, after) if p not in allowed]
        if wrong:
            return no("other files are created or changed: %r" % wrong)
        if trace and not os.path.isfile(tf):
            return no("the trace file %s is not written" % trace)
        if fail:
            ev["failure: " + fail] = 1
            if res.rc != 1 or not res.etext.strip():
                return no("%s, but exit status %s, message %r" % (fail, res.rc, res.etext[-200:]))
            if not debug and res.text:
                return no("%s, but the program printed %r" % (fail, res.text[:200]))
            return ok(key, ev, nontrivial=True, sample={"seed": seed, "cmd": repr(cmd)[:300], "failure": fail, "message": res.etext[-100:]})
        want = out(marker)
        if res.rc != 0:
            return no("exit status %s, message %r" % (res.rc, res.etext[-300:]))
        got = res.text
        if debug and not trace:
            # the trace goes to the same stream: lines of the program's output are among it
            if len(got) < 10 * len(want):
                return no("no trace with -d")
            ev["trace on stdout"] = 1
        elif got != want:
            who = [p for p in markers if markers[p] is not None and got == out(markers[p])]
            return no("printed %r, expected %r%s" % (got[:200], want, ": the library %s is used instead of %s" % (who, [p for p in markers if markers[p] == marker]) if who and needs else ""))
        if trace:
            tt = after[tf][3]
            ev["trace file"] = 1
            if not tt.startswith(b"X1 Algol Simulator Version: "):
                return no("the trace file starts with %r" % tt[:60])
            if debug != (len(tt.split(b"\n")) > 4):
                return no("%s trace in the trace file (%d lines)" % ("no" if debug else "unasked", len(tt.split(b"\n"))))
        if obj not in after:
            return no("no object file " + obj)
        if os.stat(obj).st_mode & 0o600 != 0o600:
            return no("the object file cannot be read and written by its owner (mode %o)" % (os.stat(obj).st_mode & 0o7777))
        # the object file is what the compiler makes of the same files
        cl = [p for p, _ in libs] or places[:1]
        ref = harness.run([t.cc, path] + cl, w.cwd, env=w.env(), cpu=t.cpu)
        if ref.rc == 0 and ref.out != after[obj][3]:
            return no("the object file differs from the output of the compiler")
        # the object file again, as an argument
        before = snapshot(d)
        oarg = obj if r.random() < .5 else "./" + os.path.basename(obj)
        r2 = w.run([exe] + arrange(r, [oarg], opts), inp, env=env)
        after = snapshot(d)
        ev["object files run"] = 1
        if r2.rc != 0 or not (debug and not trace) and r2.text != want:
            res = r2
            return no("the object file as argument: exit status %s, printed %r, expected %r" % (r2.rc, r2.text[:200], want))
        wrong = [p for p in changes(before, after) if p != tf]
        if wrong:
            res = r2
            return no("running the object file creates or changes %r" % wrong)
        return ok(key, ev, nontrivial=True, sample={"seed": seed, "cmd": repr(cmd).replace(d, "D")[:300], "output": want})


def usage_case(item):
    """Options that only print, and wrong usage."""
    seed, variant = item
    r = random.Random(seed)
    t = tool(variant)
    with Scratch() as d:
        w = World(d, r, t)
        w.put(w.cwd + "/p.a60", U("{begin} print(4711) {end}\n"))
        w.put(w.cwd + "/q.a60", U("{begin} {integer} i; print(SUM(i,1,3,1)) {end}\n"))
        w.put(w.cwd + "/bad.a60", U("{begin} print(undeclared) {end}\n"))
        w.put(w.cwd + "/empty.a60", b"")
        w.put(w.cwd + "/p.txt", b"x")
        w.put(w.cwd + "/noext", b"x")
        w.put(w.cwd + "/good.lib", library(5))
        w.put(w.cwd + "/empty.lib", b"")
        w.put(w.home + "/.x1algol.lib", library(5))
        os.makedirs(w.cwd + "/dir.a60")
        os.makedirs(w.cwd + "/blocked.x1")
        w.put(w.cwd + "/blocked.a60", U("{begin} print(4711) {end}\n"))
        harness.run([t.cc, "p.a60"], w.cwd, env=w.env(), cpu=t.cpu)
        w.put(w.cwd + "/o.x1", harness.run([t.cc, "p.a60"], w.cwd, env=w.env(), cpu=t.cpu).out)
        sim, cc = w.bin + "/x1sim", t.cc
        kinds = []
        H = ["Usage", "-h, --help", "-V, --version", "--trace=FILE", "-d, --debug", "file.a60", "file.x1", "library"]
        C = ["Usage", "-h ", "-v ", "-b ", "source", "library"]
        for o in ("-h", "--help"):
            for rest in ([], ["p.a60"], ["-d"], ["nonexistent.a60"], ["--nonsense"]):
                kinds.append(("help", [sim, o] + rest, 0, H, None))
        kinds.append(("help", [sim, "p.a60", "-h"], 0, H, None))
        kinds.append(("help", [cc, "-h"], 0, C, None))
        kinds.append(("help", [cc, "-h", "p.a60"], 0, C, None))
        for o in ("-V", "--version"):
            for rest in ([], ["p.a60"], ["-d"], ["nonexistent.a60"]):
                kinds.append(("version", [sim, o] + rest, 0, ["Version "], None))
        for a in ([], ["-x"], ["-x", "p.a60"], ["p.a60", "-q"], ["--nonsense"], ["--nonsense=3", "p.a60"], ["p.a60", "-T"], ["--trace"], ["-d"], ["p.a60", "--debug=3"], ["-dd"], ["--help=1"],
                  ["-d", "-T", "tr"], ["--Version"]):
            kinds.append(("usage", [sim] + a, 1, ["Usage"], "tr"))
        for a in (["p.txt"], ["noext"], ["dir"], ["p.A60"], ["p.a60x"], ["p.a6"], ["p."], [".a60"], ["a60"], ["x1"], [".x1"], ["p.x11"], ["good.lib"], ["-"], [""]):
            kinds.append(("extension", [sim] + a, 1, None, None))
        for a in (["missing.a60"], ["missing.x1"], ["nodir/p.a60"], ["dir.a60"], ["missing.a60", "good.lib"]):
            kinds.append(("missing", [sim] + a, 1, None, a[0].split("/")[-1].split(".")[0] + ".x1"))
        for a in (["o.x1", "p.a60"], ["o.x1", "o.x1"], ["o.x1", "good.lib"], ["-d", "o.x1", "missing"]):
            kinds.append(("too many", [sim] + a, 1, None, None))
        for a in (["q.a60", "missing.lib"], ["q.a60", "empty.lib"], ["bad.a60"], ["bad.a60", "good.lib"], ["empty.a60"], ["q.a60", "p.a60"], ["q.a60", "empty.lib", "missing.lib"]):
            kinds.append(("compilation", [sim] + a, 1, None, a[0][:-4] + ".x1"))
        kinds.append(("blocked", [sim, "blocked.a60"], 1, None, None))
        for a in (["--trace=nodir/tr", "p.a60"], ["-T", "blocked.x1", "-d", "p.a60"], ["-d", "p.a60", "--trace=nodir/x/y"]):
            kinds.append(("trace", [sim] + a, 1, None, None))
        for a in (["missing.a60"], ["q.a60"], ["q.a60", "missing.lib"], ["q.a60", "empty.lib"], ["bad.a60"], ["empty.a60"], ["-x", "p.a60"], ["-z"], ["-b", "-q", "p.a60"], ["-v", "-x", "p.a60"], ["dir.a60"],
                  ["--nonsense", "p.a60"], ["-f", "p.a60"]):
            kinds.append(("compiler", [cc] + a, 1, None, None))
        out = []
        for what, cmd, rc, want, may in kinds:
            before = snapshot(d)
            res = w.run(cmd, b"")
            if res.timeout:
                out.append(unsure("watchdog"))
                continue
            after = snapshot(d)
            short = [os.path.basename(cmd[0])] + cmd[1:]
            key = case_hash(what + repr(short))
            ev = {"usage: " + what: 1, "command lines:" + variant: 1, "files watched": len(before)}
            msg = None
            both = res.text + res.etext
            if res.crashed():
                msg = "crash"
            elif res.rc != rc:
                msg = "exit status %s, expected %s" % (res.rc, rc)
            elif rc and not both.strip():
                msg = "no message"
            elif rc and what != "compiler" and not res.etext.strip():
                msg = "no message on standard error"
            elif rc and "4711" in res.text:
                msg = "the program was run"
            elif want:
                text = res.text if rc == 0 else res.etext
                miss = [x for x in want if x not in text]
                if miss:
                    msg = "%r is missing in %r" % (miss, text[:300])
                elif rc == 0 and res.etext.strip():
                    msg = "message %r" % res.etext[:200]
                elif what == "version" and not re.match(r"Version \S+\n$", res.text):
                    msg = "version is %r" % res.text
            wrong = [p for p in changes(before, after) if may is None or p != os.path.join(w.cwd, may)]
            if wrong and not msg:
                msg = "creates or changes %r" % [p[len(d):] for p in wrong]
            if may and os.path.exists(os.path.join(w.cwd, may)) and os.path.join(w.cwd, may) not in before:
                os.remove(os.path.join(w.cwd, may))
            if msg:
                out.append(bad(key, "%s: %s" % (" ".join(short), msg), {"case.txt": "command line (in the directory prepared by clitest.usage_case): %r\n" % short, "got.txt": res.brief()}, sig="usage:" + what))
            else:
                out.append(ok(key, ev, nontrivial=True, sample={"cmd": repr(short), "exit": rc, "message": both[:80]}))
        return out


def compiler_case(item):
    """x1algc: source as file or standard input, tapes as text or binary, -v."""
    seed, variant = item
    r = random.Random(seed)
    t = tool(variant)
    with Scratch() as d:
        w = World(d, r, t)
        src, needs, out, inp = text_program(r)
        name = r.choice([n for n in NAMES]) + r.choice([".a60", "", ".x1", ".txt"])
        w.put(os.path.join(w.cwd, name), src)
        m = r.randrange(1, 9999)
        order = ["SUM", "RESYM", "PRSYM", "RANDOM", "SETRANDOM"]
        r.shuffle(order)
        k = r.randrange(len(order) + 1)
        w.put(w.cwd + "/t1", library(m, order))
        w.put(w.cwd + "/b1", library(m, order, True))
        w.put(w.cwd + "/t2", library(m, order[:k]))
        w.put(w.cwd + "/t3", library(m, order[k:]))
        w.put(w.cwd + "/b2", library(m, order[:k], True))
        w.put(w.cwd + "/b3", library(m, order[k:], True))
        n = "./" + name
        cc = t.cc
        before = snapshot(d)
        runs = [("text tape", [cc, n, "t1"], b""), ("binary tape", [cc, "-b", n, "b1"], b""), ("verbose", [cc, "-v", n, "t1"], b""), ("binary, verbose", [cc] + r.choice([["-v", "-b"], ["-b", "-v"], ["-bv"], ["-vb"]]) + [n, "b1"], b"")]
        if 0 < k < len(order):
            runs += [("two tapes", [cc, n, "t2", "t3"], b""), ("two binary tapes", [cc, "-b", n, "b2", "b3"], b"")]
        if not needs:
            runs += [("standard input", [cc], src.encode()), ("no library", [cc, n], b""), ("missing library, not needed", [cc, n, "missing"], b"")]
        objs = {}
        ev = {}
        key = case_hash(src + name + repr(order) + str(k))
        for what, cmd, i in runs:
            res = w.run(cmd, i)
            if res.timeout:
                return unsure("watchdog")
            ev["compiler: " + what] = 1
            ev["command lines:" + variant] = ev.get("command lines:" + variant, 0) + 1
            if res.rc != 0 or res.crashed():
                return bad(key, "%s: exit status %s: %s" % (what, res.rc, (res.text[-200:] + res.etext[-200:])), {"source.a60": src, "case.txt": repr(cmd), "got.txt": res.brief()})
            if "verbose" in what:
                text = res.text
                if needs and "Reading MCP 0" not in text:
                    return bad(key, "-v shows nothing of the library tape", {"source.a60": src, "case.txt": repr(cmd), "got.txt": res.brief()})
                objs[what] = [l.split() for l in text.split("\n") if WORD.match(l)]
            else:
                if "MCP" in res.text:
                    return bad(key, "%s: messages about the tape without -v" % what, {"source.a60": src, "case.txt": repr(cmd), "got.txt": res.brief()})
                objs[what] = obj_lines(res.out)
        base = objs["text tape"]
        words = [l for l in base if len(l) == 2 and l[0].isdigit()]
        for what in objs:
            a, b = (objs[what], words) if "verbose" in what else (objs[what], base)
            if "tapes" in what:
                # the order of loading is that of the tapes; so is the one tape's
                pass
            if a != b:
                return bad(key, "the object program differs: %s and text tape" % what, {"source.a60": src, "case.txt": repr(runs), "a.txt": repr(a), "b.txt": repr(b)})
        wrong = changes(before, snapshot(d))
        if wrong:
            return bad(key, "x1algc creates or changes %r" % wrong, {"source.a60": src, "case.txt": repr(runs)})
        o = os.path.join(w.cwd, "check.x1")
        w.put(o, t_out(w, cc, n))
        res = w.run([w.bin + "/x1sim", "check.x1"], inp)
        if res.rc != 0 or res.text != out(m):
            return bad(key, "the object program prints %r, expected %r" % (res.text[:100], out(m)), {"source.a60": src, "got.txt": res.brief()})
        return ok(key, ev, nontrivial=True, sample={"seed": seed, "name": name, "order": order, "split": k})


def t_out(w, cc, n):
    return w.run([cc, n, "t1"], b"").out
