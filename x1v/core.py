"""The check driver: case groups run over a process pool, outcomes counted, evidence written."""
import collections
import hashlib
import importlib
import json
import os
import shutil
import signal
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor
from concurrent.futures.process import BrokenProcessPool

from . import build

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")
sys.setrecursionlimit(20000)


def case_hash(*parts):
    h = hashlib.sha1()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode('utf-8', 'surrogatepass'))
        h.update(b"\0")
    return h.hexdigest()[:16]


# ---- outcomes -----------------------------------------------------------------------------------------------------
# A case function takes one JSON-able item and returns one of these (or a list of them).

def ok(key, events=None, nontrivial=True, sample=None, n=1):
    """Held. n evaluations of the oracle; key identifies the case for counting distinct ones."""
    return {"k": "ok", "key": key, "ev": events or {}, "nt": nontrivial, "sample": sample, "n": n}


def bad(key, msg, files=None, sig=None, events=None):
    """Violated. sig names the finding (a fixed name for listed probes, else unique to the case)."""
    return {"k": "bad", "key": key, "msg": msg, "files": files or {}, "sig": sig or "case:" + str(key), "ev": events or {}}


def skip(why):
    """Not a usable case (the generator discarded it)."""
    return {"k": "skip", "why": why}


def unsure(why):
    """No verdict (watchdog fired twice, out of memory...)."""
    return {"k": "unsure", "why": why}


def _call(fn, item):
    try:
        r = fn(item)
        return r if isinstance(r, list) else [r]
    except KeyboardInterrupt:
        raise
    except BaseException:
        return [{"k": "error", "why": "%r\n%s" % (item, traceback.format_exc())}]


def _chunk(args):
    modname, fname, items = args
    fn = getattr(importlib.import_module(modname), fname)
    out = []
    nbad = 0
    for it in items:
        r = _call(fn, it)
        out.append((it, r))
        nbad += any(o["k"] == "bad" for o in r)
        if nbad >= 2:       # enough: a broken tree must not keep every worker busy with hangs
            break
    return out


def _init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.setrecursionlimit(20000)


class HarnessError(Exception):
    pass


class Ctx:
    MAXBAD = 4          # violations reported (and saved) per run

    def __init__(self, pid, level):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = int(case_hash(os.environ["VERIF_SEED"]), 16) % 10 ** 6
        self.t0 = time.time()
        self.evals = 0
        self.cases = collections.Counter()
        self.distinct = set()
        self.events = collections.Counter()
        self.groups = {}
        self.samples = []
        self.violations = []
        self.known_hit = {}
        self.rules = []
        self.assumptions = []
        self.need = {}
        self.known = self.load_known()
        self.pool = None
        LIVE.append(self)

    def kill(self):
        """No worker may outlive the check."""
        if self.pool is not None:
            for p in list((getattr(self.pool, "_processes", None) or {}).values()):
                try:
                    p.kill()
                except Exception:
                    pass

    # -- sizes
    def n(self, quick, thorough=None):
        return quick if self.tier == "quick" else (thorough if thorough is not None else quick * 12)

    def base_seed(self, salt):
        """Seeds of this run for one group: disjoint ranges for different VERIF_SEED."""
        return int(case_hash(self.pid, salt, self.seed), 16) % (1 << 40)

    def seeds(self, salt, n):
        b = self.base_seed(salt)
        return [b + i for i in range(n)]

    # -- known findings
    def load_known(self):
        out = {}
        if os.path.exists(KNOWN):
            for line in open(KNOWN, encoding='utf-8'):
                line = line.strip()
                if not line.startswith("known: "):
                    continue
                w = line[7:].split(None, 2)
                kv = dict(x.split("=", 1) for x in w[:2])
                if kv["property"] == self.pid:
                    out[kv["sig"]] = w[2]
        return out

    # -- running
    def setup(self, *variants):
        self.base = build.ensure(*variants)
        os.environ["X1V_BASE"] = self.base

    def start(self):
        if self.pool is None:
            self.pool = ProcessPoolExecutor(max_workers=min(8, os.cpu_count() or 4), initializer=_init)

    def run(self, name, fn, items, chunk=None, min_ok=1, rule=None, shrinker=None):
        """Run fn over items. Stops early after MAXBAD violations."""
        items = list(items)
        self.start()
        if rule:
            self.rules.append("%s: %s" % (name, rule))
        if chunk is None:
            chunk = max(1, min(16, len(items) // 32))
        jobs = [(fn.__module__, fn.__name__, items[i:i + chunk]) for i in range(0, len(items), chunk)]
        g = self.groups.setdefault(name, collections.Counter())
        pend = collections.deque()
        it = iter(jobs)
        try:
            done = False
            while True:
                while not done and len(pend) < 24:
                    j = next(it, None)
                    if j is None:
                        done = True
                        break
                    pend.append(self.pool.submit(_chunk, j))
                if not pend:
                    break
                for item, outs in pend.popleft().result():
                    for o in outs:
                        self.take(name, g, fn, item, o)
                if len(self.violations) >= self.MAXBAD:
                    for p in pend:
                        p.cancel()
                    break
        except BrokenProcessPool as x:
            raise HarnessError("worker pool died: %s" % x)
        if g["error"]:
            raise HarnessError("case function failed:\n" + g_err.get(name, ''))
        if not self.violations and g["ok"] < min_ok:
            raise HarnessError("group %s: only %d of %d cases gave a verdict (%s)" % (name, g["ok"], len(items), dict(g)))
        return g

    def take(self, name, g, fn, item, o):
        k = o["k"]
        g[k] += 1
        if k == "error":
            g_err.setdefault(name, o["why"])
            return
        if k in ("skip", "unsure"):
            self.cases[k] += 1
            g[k + ": " + o["why"][:60]] += 1
            return
        self.events.update(o["ev"])
        if k == "ok":
            self.evals += o["n"]
            if o["nt"]:
                key = (name, o["key"])
                new = key not in self.distinct
                self.distinct.add(key)
                if new and o["sample"] is not None and g["samples"] < 2:
                    g["samples"] += 1
                    self.samples.append({"group": name, "case": o["sample"]})
            return
        self.evals += 1
        sig = o["sig"]
        if sig in self.known:
            self.known_hit[sig] = self.known[sig]
            return
        if len(self.violations) >= self.MAXBAD:
            return
        path = self.save(name, fn, item, o)
        self.violations.append((name, o["msg"], path))
        print("%s\nVIOLATION property=%s replay=%s" % (o["msg"][:3000], self.pid, path), flush=True)

    def save(self, name, fn, item, o):
        d = os.path.join(VERIF, ".replay", "%s-%s-%s" % (self.pid, name, case_hash(name, json.dumps(item, default=str), o["msg"])))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for f, t in o["files"].items():
            with open(os.path.join(d, f), "wb") as fd:
                fd.write(t if isinstance(t, bytes) else str(t).encode('utf-8', 'surrogatepass'))
        with open(os.path.join(d, "case.json"), "w") as fd:
            json.dump({"property": self.pid, "group": name, "module": fn.__module__, "function": fn.__name__, "item": item,
                       "seed": self.seed, "tier": self.tier}, fd, default=str)
        with open(os.path.join(d, "message.txt"), "w") as fd:
            fd.write(o["msg"] + "\n\nrepeat: python3 /verif/check.py --replay %s\n" % d)
        return d

    def require(self, **kw):
        """Monitors must have seen at least this many events of each kind."""
        for k, v in kw.items():
            self.need[k.replace('__', '-')] = v

    def finish(self):
        if self.pool:
            self.pool.shutdown(wait=True, cancel_futures=True)
        if not self.violations:
            for k, v in self.need.items():
                if self.events.get(k, 0) < v:
                    raise HarnessError("the monitors saw only %d events of kind '%s' (need %d): nothing to conclude" %
                                       (self.events.get(k, 0), k, v))
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": {
                "evaluations": self.evals,
                "distinct_nontrivial": len(self.distinct),
                "rule": " | ".join(self.rules),
                "samples": self.samples[:24],
                "observed_events": dict(self.events.most_common()),
                "groups": {k: {a: b for a, b in v.items() if a != "samples"} for k, v in self.groups.items()},
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        if self.known_hit:
            ev["coverage"]["known_findings_seen"] = sorted(self.known_hit)
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        tmp = VERIF + "/evidence/.%s.%d" % (self.pid, os.getpid())
        with open(tmp, "w", encoding="utf-8") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        os.replace(tmp, VERIF + "/evidence/%s.json" % self.pid)
        for s, t in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, t))
        print("%s %s seed=%d: %d evaluations, %d distinct, %d violations, %.1f s" %
              (self.pid, self.tier, self.seed, self.evals, len(self.distinct), len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0


g_err = {}
LIVE = []
