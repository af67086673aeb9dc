from .. import inptest
VARIANTS = ("plain", "san")


def run(c):
    c.assumptions = ["a number ends at the first symbol that cannot belong to it; that symbol is consumed, unless it is a sign; "
                     "numbers followed by a non-ASCII symbol are not judged"]
    n = c.n(4000, 60000)
    c.run("sequences", inptest.case, [[s, "san" if i % 16 == 0 else "plain"] for i, s in enumerate(c.seeds("inp", n))], min_ok=n // 2,
          rule="programs mixing read, RESYM and PRSYM over made and damaged texts; every number and code compared with a model of the input")
    n = c.n(400, 4000)
    c.run("copies", inptest.copy_case, [[s, "san" if i % 16 == 0 else "plain"] for i, s in enumerate(c.seeds("copy", n))], min_ok=n // 2,
          rule="texts over all symbols copied by RESYM and PRSYM in several ways; output identical to the input")
    n = c.n(400, 6000)
    c.run("unknown symbols", inptest.near_case, [[s, "san" if i % 16 == 0 else "plain"] for i, s in enumerate(c.seeds("near", n))], min_ok=n * 9 // 10,
          rule="symbols one byte away from those of the code: RESYM refuses them, read does not take them for part of a number")
    c.require(read=5000, RESYM=20000, PRSYM=5000, stops=100, **{"symbols copied": 50000, "unknown symbol: RESYM": 100, "unknown symbol: read": 100})
