import random
from .. import storetest
VARIANTS = ("plain", "san")


def run(c):
    c.assumptions = ["repetitions are watched from outside: an array occupies all storage but a few cells; a statement whose second execution fits must fit always"]
    k = len(storetest.CATALOG)
    every = [[i, f, "plain"] for f in range(4) for i in range(k)]
    random.Random(c.seeds("order", 1)[0]).shuffle(every)
    # each statement in at least one form of repetition, whatever the tier
    seen, first, rest = set(), [], []
    for x in every:
        (rest if x[0] in seen else first).append(x)
        seen.add(x[0])
    items = first + rest[:c.n(10, len(rest))]
    c.run("catalog", storetest.catalog_case, items, min_ok=len(items) * 3 // 4,
          rule="each statement of a catalog of %d, repeated by goto, for step, for while and conditional goto with the storage nearly full, never runs out of storage" % k)
    n = c.n(50, 2500)
    c.run("programs", storetest.leak_case, [[s, "plain"] for s in c.seeds("leak", n)], min_ok=n // 2,
          rule="generated blocks repeated in their own block, as blocks, as procedures, left by goto, inside expressions; exact edge for a quarter of them")
    n = c.n(30, 1500)
    c.run("recursion", storetest.recursion_case, [[s, "plain" if s % 12 else "san"] for s in c.seeds("rec", n)], min_ok=n // 2,
          rule="generated recursive procedures: every level checks its locals, arrays and parameters after the deeper ones; right up to the last depth that fits, a clean error above")
    storetest.rss_tool()
    items = [[i, i % 4, c.n(700, 8000)] for i in range(k)]
    c.run("memory", storetest.memory_case, items, min_ok=len(items) * 3 // 4,
          rule="each statement of the catalog repeated thousands of times: the memory of the simulator (largest resident set) is that of a tenth of the repetitions, within 400 kilobytes")
    c.require(repetitions=200000, recursions=15, levels=4000, **{"edge-probes": 20, "repeat-probes": 60, "memory watched": 80, "repetitions with memory watched": 100000, "by-name-chains": 2, "left-by-goto": 3})
