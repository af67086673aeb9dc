from .. import diff, gototest
VARIANTS = ("plain", "san")


def run(c):
    c.assumptions = ["the reference interpreter and its number model state the meaning of Algol 60 on the X1"]
    c.run("programs", diff.case, diff.mix(c, "programs", c.n(5000, 100000), {"goto": 3, "control": 2, "formal": 0.5}), min_ok=1000,
          rule="random program, run by the real compiler and simulator, output compared with the reference interpreter; "
               "non-trivial: at least two printed lines")
    c.run("jumps", gototest.case, [[s, "san" if i % 16 == 5 else "plain"] for i, s in enumerate(c.seeds("jumps", c.n(2500, 60000)))], min_ok=1500,
          rule="nested blocks and recursive procedures full of labels, switches, formal labels and switches; gotos from statements, for bodies, "
               "function designators inside expressions, bounds, subscripts, parameters by name; every landing prints the visible variables")
    c.require(goto=50000, switch=3000, **{"goto out of a call": 3000, "goto out of many calls": 150, "label in a for body": 500})
