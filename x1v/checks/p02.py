from .. import diff
VARIANTS = ("plain", "san")


def run(c):
    c.assumptions = ["the reference interpreter and its number model state the meaning of Algol 60 on the X1"]
    c.run("programs", diff.case, diff.mix(c, "programs", c.n(7000, 120000), {"blocks": 4, "control": 2, "default": 1, "deep": 0.5}), min_ok=1000,
          rule="random program, run by the real compiler and simulator, output compared with the reference interpreter; "
               "non-trivial: at least two printed lines")
    c.require(block=5000, wrapped=200, **{"own variable": 2000, "own array kept": 200, "result among several left parts": 300})
