from .. import diff, fortest
VARIANTS = ("plain", "san")


def run(c):
    c.assumptions = ["the reference interpreter and its number model state the meaning of Algol 60 on the X1"]
    c.run("programs", diff.case, diff.mix(c, "programs", c.n(5000, 120000), {"for": 5, "arrays": 1}), min_ok=1000,
          rule="random program, run by the real compiler and simulator, output compared with the reference interpreter; "
               "non-trivial: at least two printed lines")
    n = c.n(2500, 60000)
    c.run("for lists", fortest.case, [[s, "san" if i % 16 == 0 else "plain"] for i, s in enumerate(c.seeds("forlist", n))], min_ok=n // 2,
          rule="one for statement with every kind of controlled variable and element, whose parts report their evaluation and whose body changes what "
               "they depend on: log compared with the reference interpreter")
    c.require(for__step=20000, for__while=500, for__expr=2000)
