from .. import numtest
VARIANTS = ("plain", "san")


def run(c):
    c.assumptions = ["integer model: ones complement, 27 bits; minus zero prints as zero or minus zero alike"]
    n = c.n(7000, 120000)
    c.run("integers", numtest.int_case, [[s, "san" if i % 16 == 0 else "plain"] for i, s in enumerate(c.seeds("int", n))], min_ok=n // 2,
          rule="programs of up to 40 operations on operands biased to limits, held in constants, variables, elements, formals and functions; "
               "every printed result compared with exact arithmetic")
    c.require(add=500, subtract=500, multiply=500, quotient=500, power=200, entier=200, transfer=200, zero=100)
