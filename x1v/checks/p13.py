from .. import fuzz
VARIANTS = ("plain", "san", "msan")


def run(c):
    c.assumptions = ["leaks are not judged", "processor time limit of 24 s (sanitizer build) stands for 'reasonable time'"]
    n = c.n(1100, 24000)
    c.run("texts", fuzz.source_case, [[s, "msan" if i % 3 == 0 else "san"] for i, s in enumerate(c.seeds("texts", n))], min_ok=n // 2,
          rule="mutated, spliced, truncated and random source texts under ASan+UBSan and MSan: an object program with well-formed lines and status 0, or a message and status 1")
    sizes = [1, 2, 17, 33, 120, 400, 1300, 4200, 9000] if c.tier == "quick" else [1, 2, 5, 16, 17, 31, 32, 33, 63, 64, 65, 120, 127, 128, 129, 255, 256, 257, 400, 511, 512, 513,
                                                                           1023, 1024, 1025, 1300, 2047, 2048, 2049, 4095, 4096, 4097, 4200, 9000, 16000, 40000]
    b = c.base_seed("sizes") % 7
    c.run("sizes", fuzz.size_case, [[k, n + b if n > 40 and c.tier == "quick" else n, v] for k in fuzz.KINDS for n in sizes for v in (("san", "msan") if c.tier != "quick" or n == 1300 else ("san",))],
          min_ok=200, rule="texts growing along one of %d dimensions to beyond every table: same verdict" % len(fuzz.KINDS))
    c.require(compiled=300, rejected=1000, san=2000, msan=1000, sizes=500, **{"stop 7": 50, "stop 22": 50, "stop 25": 20, "stop 17": 5, "stop 16": 1, "stop 13": 10})
