from .. import calltest, diff
VARIANTS = ("plain", "san")


def run(c):
    c.assumptions = ["the reference interpreter and its number model state the meaning of Algol 60 on the X1"]
    c.run("programs", diff.case, diff.mix(c, "programs", c.n(7000, 120000), {"procs": 2, "byname": 2, "recur": 2, "formal": 2, "deep": 0.3}), min_ok=1000,
          rule="random program, run by the real compiler and simulator, output compared with the reference interpreter; "
               "non-trivial: at least two printed lines")
    n = c.n(5000, 120000)
    c.run("calls", calltest.case, [[s, "san" if i % 20 == 0 else "plain"] for i, s in enumerate(c.seeds("calls", n))], min_ok=n // 2,
          rule="procedures with 0 to 40 parameters of every kind (also passed on, nested, recursive, formal labels and switches, standard procedures), "
               "each parameter printed, assigned to and passed on in random order")
    c.require(call=20000, goto=100, **{"call with over 13 parameters": 200, "standard procedure as parameter": 500})
