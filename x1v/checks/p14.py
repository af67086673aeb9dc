from .. import fuzz, machtest
VARIANTS = ("plain", "san")


def run(c):
    c.assumptions = ["a run that uses up its processor time counts as an endless program if a traced run shows it executing instructions"]
    n = c.n(380, 24000)
    c.run("objects", fuzz.object_case, [[s, "san"] for s in c.seeds("objects", n)], min_ok=n // 2,
          rule="mutated object programs with hostile inputs, some traced, under ASan+UBSan: status 0, or 1 with a message; no other files")
    n = c.n(300, 20000)
    c.run("operations", fuzz.words_case, [[s, "san"] for s in c.seeds("operations", n)], min_ok=n // 2,
          rule="random sequences of standard operations with references around the top of the stack")
    n = c.n(330, 12000)
    c.run("programs", fuzz.program_case, [[s, "san"] for s in c.seeds("programs", n)], min_ok=n // 2,
          rule="compiled programs calling every operation and standard procedure with extreme and wrongly typed arguments, indices, bounds and depths")
    n = c.n(150, 8000)
    c.run("instructions", machtest.wild_case, [[s, "san"] for s in c.seeds("instructions", n)], min_ok=n // 2,
          rule="random machine instructions with any operands on random register contents")
    n = c.n(40, 800)
    c.run("memcheck", fuzz.memcheck_case, [[s] for s in c.seeds("memcheck", n)], min_ok=0,
          rule="the uninstrumented simulator under valgrind: no decision on uninitialised data")
    c.require(completed=500, **{"error: Opcode": 100, "error: Unknown instruction": 20, "error: Bad line:": 100, "error: Need integer, got real": 30})
