from .. import diff, exprtest
VARIANTS = ("plain", "san")


def run(c):
    c.assumptions = ["the reference interpreter and its number model state the meaning of Algol 60 on the X1"]
    c.run("programs", diff.case, diff.mix(c, "programs", c.n(9000, 150000), {"expr": 4, "exprdeep": 3, "default": 2}), min_ok=1000,
          rule="random program, run by the real compiler and simulator, output compared with the reference interpreter; "
               "non-trivial: at least two printed lines")
    n = c.n(4000, 100000)
    c.run("operands", exprtest.case, [[s, "san" if i % 20 == 0 else "plain"] for i, s in enumerate(c.seeds("operands", n))], min_ok=n // 2,
          rule="random expressions, assignments and relations over operands of every kind of access (global, local, by value, by name, element, "
               "function, constant) whose values lie close together or at the limits")
    c.require(print=1000, relation=2000)
