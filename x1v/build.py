"""Builds the code under test from /repo's working tree into a scratch directory outside /repo."""
import glob
import hashlib
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("X1V_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get("X1V_CACHE", os.path.join(VERIF, ".build"))

SAN = ["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
       "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR"]
PLAIN = ["-O2", "-g"]
VER = ['-DVERSION_STRING="verif"']


class BuildError(Exception):
    pass


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stdout.write("build failed: %s\n%s\n" % (' '.join(cmd), r.stdout.decode('utf-8', 'replace')[-4000:]))
        raise BuildError(cmd[0])


def sources():
    s = sorted(glob.glob(REPO + "/simulator/*.cpp") + glob.glob(REPO + "/simulator/*.h") +
               glob.glob(REPO + "/compiler/*.c") + glob.glob(REPO + "/compiler/*.h") + glob.glob(REPO + "/compiler/*.pas") +
               glob.glob(REPO + "/library/*.cc") + glob.glob(REPO + "/library/*.lib") + glob.glob(REPO + "/library/*.src") +
               glob.glob(VERIF + "/harness/*"))
    s.append(__file__)
    return s


def tree_hash():
    h = hashlib.sha256()
    for f in sources():
        h.update(f.encode())
        with open(f, 'rb') as fd:
            h.update(fd.read())
    return h.hexdigest()[:16]


def ensure(*variants):
    """Directory with <variant>/x1sim etc. Variants: plain san lib(objfile) num clang-msan."""
    h = tree_hash()
    base = os.path.join(CACHE, h)
    os.makedirs(base, exist_ok=True)
    variants = [v for v in variants if v]
    # keep the cache small: remove builds of other trees
    for d in os.listdir(CACHE):
        if d != h and not d.endswith('.lock'):
            shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
    jobs = []
    ex = ThreadPoolExecutor(8)
    for v in variants:
        d = os.path.join(base, v)
        if os.path.exists(d + "/ok"):
            continue
        tmp = d + ".tmp.%d" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        jobs.append((v, d, tmp, build_variant(ex, v, tmp)))
    for v, d, tmp, fut in jobs:
        fut()
        open(tmp + "/ok", "w").close()
        shutil.rmtree(d, ignore_errors=True)
        try:
            os.rename(tmp, d)
        except OSError:
            if not os.path.exists(d + "/ok"):
                raise
    ex.shutdown()
    return base


def build_variant(ex, v, out):
    if v in ("plain", "san"):
        fl = PLAIN if v == "plain" else SAN
        objs = []
        futs = []
        for f in sorted(glob.glob(REPO + "/simulator/*.cpp")):
            o = os.path.join(out, os.path.basename(f) + ".o")
            objs.append(o)
            futs.append(ex.submit(run, ["g++", "-std=c++17", "-w"] + fl + VER + ["-c", f, "-o", o]))
        cs = sorted(glob.glob(REPO + "/compiler/*.c"))
        futs.append(ex.submit(run, ["gcc", "-std=gnu11", "-w"] + fl + VER + cs + ["-o", out + "/x1algc", "-lm"]))
        futs.append(ex.submit(run, ["g++", "-std=c++17", "-w"] + fl + [REPO + "/library/objfile.cc", "-o", out + "/objfile"]))

        def link():
            for f in futs:
                f.result()
            run(["g++"] + fl + objs + ["-o", out + "/x1sim"])
            hs = sorted(glob.glob(VERIF + "/harness/*.cpp"))
            noms = [o for o in objs if not o.endswith("/main.cpp.o")]
            fs = []
            for hsrc in hs:
                name = os.path.basename(hsrc)[:-4]
                if name.startswith("fuzz_"):
                    continue
                fs.append(ex.submit(run, ["g++", "-std=c++17", "-w"] + fl + ["-I" + REPO + "/simulator", hsrc] + noms +
                                    ["-o", out + "/" + name]))
            for f in fs:
                f.result()
            for o in objs:
                os.unlink(o)
        return link
    if v == "msan":
        cs = sorted(glob.glob(REPO + "/compiler/*.c"))
        f = ex.submit(run, ["clang", "-std=gnu11", "-w", "-g", "-O1", "-fsanitize=memory", "-fno-sanitize-recover=all"] +
                      cs + ["-o", out + "/x1algc", "-lm"])
        return f.result
    if v in ("pas", "pasr"):        # the Pascal version; pasr: with the run-time checks of the Pascal compiler (ranges, overflow, stack)
        src = out + "/x1algol.pas"
        shutil.copy(REPO + "/compiler/x1algol.pas", src)
        f = ex.submit(run, ["fpc", "-Miso", "-g", "-gl"] + (["-Cr", "-Co", "-Ct"] if v == "pasr" else []) + [src, "-o" + out + "/x1algol"])
        return f.result
    raise AssertionError(v)
