from .. import fmttest
VARIANTS = ("plain", "san")


def run(c):
    c.assumptions = ["where the exact decimal lies within the error of the host's 64-bit arithmetic of a rounding boundary both digits are right: "
                     "2**-61 of the largest number of the layout for FIXT, 1/20000 of the last place for FLOT; a real zero may carry either sign"]
    n = c.n(4000, 60000)
    c.run("fields", fmttest.case, [[s, "san" if i % 16 == 0 else "plain"] for i, s in enumerate(c.seeds("fmt", n))], min_ok=n // 2,
          rule="programs of up to 40 calls of FIXT, ABSFIXT, FLOT, print, SPACE, TAB, NLCR and PRINTTEXT, direct and through formals; values biased "
               "to powers of ten, nines, halves, limits and zero; every printed field compared with the layout computed in exact arithmetic")
    c.require(FIXT=3000, ABSFIXT=1500, FLOT=3000, plain=1000, text=500, print__list=500, **{"rounding to a power of ten": 300})
