from .. import numtest
VARIANTS = ("plain", "san")


def run(c):
    c.assumptions = ["ties and the double rounding of the host's 64-bit intermediate format are part of the model"]
    n = c.n(6000, 100000)
    c.run("reals", numtest.real_case, [[s, "san" if i % 16 == 0 else "plain"] for i, s in enumerate(c.seeds("real", n))], min_ok=n // 2,
          rule="programs of up to 40 operations on reals over the whole exponent range (cancellation, ties, overflow and underflow limits), "
               "operands in variables, elements, formals, functions; every printed result compared with the exactly rounded value")
    n = c.n(1500, 20000)
    c.run("constants", numtest.lit_case, [[s, "san" if i % 16 == 0 else "plain"] for i, s in enumerate(c.seeds("lit", n))], min_ok=n // 2,
          rule="30 spellings of numbers per program, as constants and as input of read, printed and compared with the exact decimal value")
    c.require(add=2000, subtract=2000, multiply=2000, divide=2000, compare=500, constants=10000)
