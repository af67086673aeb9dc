from .. import pastest
VARIANTS = ("plain", "pas", "pasr")


def run(c):
    c.assumptions = ["programs without the differences documented in the README (formal parameters passed on directly, standard functions passed as parameters, a constant as a parameter after a standard function) and "
                     "without procedures from a library tape",
                     "source in the notation the Pascal version reads: _b_e_g_i_n and the symbols themselves"]
    for kind, n, m in (("programs", 480, 12000), ("expressions", 160, 4000), ("calls", 400, 8000), ("loops", 160, 4000), ("arrays", 160, 4000)):
        n = c.n(n, m)
        c.run(kind, pastest.case, [[kind, s, "pasr" if i % 4 == 0 else "pas"] for i, s in enumerate(c.seeds("pas" + kind, n))], min_ok=n // 25,
              rule="generated programs in 2 or 3 layouts: the object programs of both versions agree line by line; a name not declared: both stop with the same number")
    n = c.n(160, 8000)
    c.run("literals", pastest.literals, [[s, "pasr" if i % 4 == 0 else "pas"] for i, s in enumerate(c.seeds("paslit", n))], min_ok=n,
          rule="40 constants each: the object programs agree; constants out of range: both stop with the same number or agree")
    c.require(**{"same object programs": 1500, "lines over 255 bytes": 20, "literals": 4000, "name not declared": 200})
