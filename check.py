#!/usr/bin/env python3
"""check.py <property> [--thorough] : run the check of one property (VERIF_SEED, VERIF_TIER in the environment).
check.py --replay <dir> : run one saved case again.
check.py --setup : build everything once (warms nothing that a check does not also build itself).
exit 0 held, 1 violated, 2 the check itself failed."""
import importlib
import json
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ["LC_ALL"] = "C.UTF-8"
os.environ.pop("X1ALGOL_LIB", None)
from x1v import build, core  # noqa: E402


def main():
    if len(sys.argv) == 2 and sys.argv[1] == "--setup":
        print(build.ensure("plain", "san", "msan"))
        return 0
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        c = json.load(open(os.path.join(sys.argv[2], "case.json")))
        mod = importlib.import_module("x1v.checks." + c["property"].lower())
        os.environ["X1V_BASE"] = build.ensure(*mod.VARIANTS)
        fn = getattr(importlib.import_module(c["module"]), c["function"])
        rc = 0
        for o in core._call(fn, c["item"]):
            print(o["k"], o.get("msg") or o.get("why") or "")
            rc = max(rc, {"bad": 1, "error": 2}.get(o["k"], 0))
        return rc
    pid = sys.argv[1]
    if "--thorough" in sys.argv[2:]:
        os.environ["VERIF_TIER"] = "thorough"
    mod = importlib.import_module("x1v.checks." + pid.lower())
    ctx = core.Ctx(pid, getattr(mod, "LEVEL", "exploration"))
    try:
        ctx.setup(*mod.VARIANTS)
        mod.run(ctx)
        return ctx.finish()
    except (core.HarnessError, build.BuildError) as x:
        # a violation that was already reported stands; otherwise there is no verdict
        if ctx.violations:
            return ctx.finish()
        print("CHECK ERROR %s: %s" % (pid, x))
        return 2
    except Exception:
        traceback.print_exc()
        if ctx.violations:
            return 1
        return 2


if __name__ == "__main__":
    rc = 2
    try:
        rc = main()
    finally:
        for ctx in core.LIVE:
            ctx.kill()
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(rc)
