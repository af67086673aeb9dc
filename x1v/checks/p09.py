from .. import numtest
VARIANTS = ("plain", "san")


def run(c):
    c.assumptions = ["exact values from integer-arithmetic series with more than 190 good bits; a result within one unit of the 40-bit "
                     "mantissa (plus half a unit of the 13th printed digit) is right; arguments of sin and cos beyond 2**30 and integer "
                     "exponents beyond 10000 get the error of a one-unit change of the argument"]
    n = c.n(3000, 60000)
    c.run("functions", numtest.fun_case, [[s, "san" if i % 16 == 0 else "plain"] for i, s in enumerate(c.seeds("fun", n))], min_ok=n // 2,
          rule="programs of up to 30 calls of sqrt, sin, cos, arctan, ln, exp, abs, sign and powers, on arguments biased to limits, special "
               "points and domain edges, held in constants, variables, elements, formals and functions")
    c.require(sqrt=500, sin=500, cos=300, arctan=500, ln=500, exp=500, power__ii=300, power__ir=300, power__ri=300, power__rr=300, **{"power-ri large": 500, "power-ii large": 300})
