"""Running the real programs, in scratch directories, with watchdogs.

A hang is judged by processor time (RLIMIT_CPU), not by the clock; the wall clock only guards the harness, and its
firing gives no verdict."""
import os
import resource
import shutil
import signal
import subprocess
import tempfile

from . import build

SANENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99",
    "MSAN_OPTIONS": "exitcode=99",
}
SAN_EXIT = 99
LIB = build.REPO + "/library/x1algol.lib"
CPU = 8
WALL = 150


class Res:
    __slots__ = ("rc", "out", "err", "timeout", "hang", "obj", "extra")

    def __init__(self, rc, out, err, timeout=False, hang=False):
        self.rc, self.out, self.err, self.timeout, self.hang = rc, out, err, timeout, hang
        self.obj = None
        self.extra = None

    @property
    def text(self):
        return self.out.decode('utf-8', 'replace')

    @property
    def etext(self):
        return self.err.decode('utf-8', 'replace')

    def crashed(self):
        """Sanitizer report, signal, or a C++ abort."""
        if self.hang or self.timeout:
            return False
        return self.rc < 0 or self.rc == SAN_EXIT or self.rc >= 126 or b": runtime error: " in self.err or \
            b"Sanitizer" in self.err or b"terminate called" in self.err

    def brief(self):
        return "exit status %s%s%s\nstdout: %s\nstderr: %s" % (self.rc, " WATCHDOG" if self.timeout else "",
                                                              " HANG (processor time limit)" if self.hang else "",
                                                              self.text[-1500:], self.etext[-2500:])


def _limits(cpu, mem_mb, fsize_mb, stack_mb=0):
    def f():
        os.setsid()
        if mem_mb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_mb << 20, mem_mb << 20))
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
        resource.setrlimit(resource.RLIMIT_FSIZE, (fsize_mb << 20, fsize_mb << 20))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if stack_mb:
            resource.setrlimit(resource.RLIMIT_STACK, (stack_mb << 20, stack_mb << 20))
    return f


def run1(cmd, cwd, inp=b"", env=None, mem_mb=0, fsize_mb=64, cpu=CPU, wall=WALL, keep=4 << 20):
    e = dict(os.environ)
    e.update(SANENV)
    e.pop("X1ALGOL_LIB", None)
    if env:
        e.update(env)
    with tempfile.TemporaryFile() as fi, tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        if inp:
            fi.write(inp)
            fi.seek(0)
        p = subprocess.Popen(cmd, cwd=cwd, stdin=fi, stdout=fo, stderr=fe, env=e,
                             preexec_fn=_limits(cpu, mem_mb, fsize_mb))
        to = False
        try:
            p.wait(timeout=wall)
        except subprocess.TimeoutExpired:
            to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)    # nothing of it may be left
        except OSError:
            pass
        p.wait()
        fo.seek(0)
        fe.seek(0)
        return Res(p.returncode, fo.read(keep), fe.read(keep), to,
                   not to and p.returncode in (-signal.SIGXCPU, -signal.SIGXFSZ))


def run(cmd, cwd, inp=b"", env=None, mem_mb=0, fsize_mb=64, cpu=CPU, wall=WALL, keep=4 << 20):
    r = run1(cmd, cwd, inp, env, mem_mb, fsize_mb, cpu, wall, keep)
    if r.timeout or r.hang:
        r = run1(cmd, cwd, inp, env, mem_mb, fsize_mb, cpu * 3, wall * 2, keep)
    return r


class Scratch:
    def __init__(self, prefix="x1v."):
        self.prefix = prefix

    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix=self.prefix)
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


class Tool:
    """The built programs of one variant."""

    def __init__(self, base, variant):
        self.dir = os.path.join(base, variant)
        self.sim = self.dir + "/x1sim"
        self.cc = self.dir + "/x1algc"
        self.obj = self.dir + "/objfile"
        self.pas = self.dir + "/x1algol"
        self.variant = variant
        self.cpu = CPU if variant == "plain" else CPU * 3

    def env(self, **kw):
        e = {"PATH": self.dir + ":/usr/local/bin:/usr/bin:/bin", "X1ALGOL_LIB": LIB, "HOME": "/nonexistent"}
        e.update(kw)
        return e

    def compile(self, d, src, name="p.a60", libs=(LIB,), args=(), **kw):
        if src is not None:
            with open(os.path.join(d, name), "wb") as f:
                f.write(src if isinstance(src, bytes) else src.encode())
        kw.setdefault("cpu", self.cpu)
        return run([self.cc] + list(args) + [name] + list(libs), d, env=self.env(), **kw)

    def sim_run(self, d, name, inp=b"", args=(), env=None, libs=(), **kw):
        e = self.env()
        if env:
            e.update(env)
        kw.setdefault("cpu", self.cpu)
        return run([self.sim] + list(args) + [name] + list(libs), d, inp, env=e, **kw)

    def a60(self, src, inp=b"", args=(), libs=(), keep_obj=False, **kw):
        """x1sim p.a60 in a scratch directory."""
        with Scratch() as d:
            with open(os.path.join(d, "p.a60"), "wb") as f:
                f.write(src if isinstance(src, bytes) else src.encode())
            r = self.sim_run(d, "p.a60", inp, args, libs=libs, **kw)
            if keep_obj:
                try:
                    with open(os.path.join(d, "p.x1"), "rb") as f:
                        r.obj = f.read()
                except OSError:
                    pass
            return r

    def x1(self, obj, inp=b"", args=(), **kw):
        """x1sim p.x1 in a scratch directory."""
        with Scratch() as d:
            with open(os.path.join(d, "p.x1"), "wb") as f:
                f.write(obj if isinstance(obj, bytes) else obj.encode())
            return self.sim_run(d, "p.x1", inp, args, **kw)


_tools = {}


def tool(variant="plain"):
    t = _tools.get(variant)
    if t is None:
        t = _tools[variant] = Tool(os.environ["X1V_BASE"], variant)
    return t
