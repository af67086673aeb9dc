from .. import failtest
VARIANTS = ("plain", "san")


def run(c):
    c.assumptions = ["damage to a user's own object file that leaves well-formed lines is not a failed step"]
    cfg = ["default", "procs", "control", "recur", "for", "blocks", "byname", "goto"]
    n = c.n(240, 6000)
    c.run("run-time errors", failtest.runtime_case, [[s, cfg[i % len(cfg)], "san" if i % 10 == 0 else "plain"] for i, s in enumerate(c.seeds("rt", n))], min_ok=n // 2,
          rule="generated programs with one of %d errors raised at a chosen output line, and without: standard output exactly the lines before, status and message" % len(failtest.ERRORS))
    n = c.n(160, 5000)
    c.run("compile errors", failtest.compile_case, [[s, "san" if i % 10 == 0 else "plain"] for i, s in enumerate(c.seeds("ce", n))], min_ok=n // 2,
          rule="damaged sources next to a stale object program (whole or cut) of the same name: nothing executed, message, status")
    c.run("faults", failtest.fault_case, [f + [v] for f in failtest.faults(c) for v in (("plain",) if c.tier == "quick" else ("plain", "san"))], min_ok=80,
          rule="files missing, unreadable, damaged; compiler missing, failing, killed; disk full; wrong usage: nothing executed, message, status")
    c.require(**{"run-time errors": 200, "complete runs": 100, "compile error": 200, "stale object in place": 100, "compiler status": 10, "compiler killed": 8,
                 "object cut by a full disk": 8, "output full": 2})
