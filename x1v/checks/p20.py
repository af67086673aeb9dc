import random
from .. import captest
VARIANTS = ("plain", "san")


def run(c):
    c.assumptions = ["how large a program may be is not specified: only that what is accepted is right and what is not is rejected with a message"]
    r = random.Random(c.seeds("order", 1)[0])
    names = sorted(captest.TEMPLATES)
    items = []
    for rep in range(c.n(1, 12)):
        for i, name in enumerate(names):
            items.append([name, (i + r.randrange(3)) % 3, "plain", r.randrange(1 << 30)])
    for name in names if c.tier == "thorough" else r.sample(names, 10):
        items.append([name, r.randrange(3), "san", r.randrange(1 << 30)])
    c.run("growing", captest.scan_case, items, min_ok=len(items) * 9 // 10,
          rule="%d kinds of programs growing in one direction (constants, names, labels, nesting, ...): the edge of what is accepted is searched and every size around it run; "
               "accepted programs print what was computed beforehand, others are rejected with a message" % len(names))
    n = c.n(150, 6000)
    c.run("mixed", captest.mix_case, [[s, "plain" if s % 10 else "san"] for s in c.seeds("mix", n)], min_ok=n * 2 // 3,
          rule="two to six kinds in one program, scaled down until accepted, in steps around the edge")
    c.require(accepted=1200, rejected=900, edges=40, mixed=100)
