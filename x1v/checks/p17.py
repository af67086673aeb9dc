from .. import libtest
VARIANTS = ("plain", "san")


def run(c):
    n = c.n(700, 12000)
    c.assumptions = ["one wrong bit per tape (the code has one parity bit for each 27-bit word); lost or repeated punchings in the middle of a tape are not detectable with certainty"]
    v = lambda i: "san" if i % 10 == 0 else "plain"
    c.run("repository", libtest.source_case, [[x[1][0].lower()] for x in sorted(libtest.PROCS.items())], min_ok=8,
          rule="the library tapes in the repository, decoded with an own decoder, hold the words of their sources; assembling gives them again")
    c.run("loading", libtest.case, [[s, v(i)] for i, s in enumerate(c.seeds("load", n))], min_ok=n * 9 // 10,
          rule="random procedures assembled (and decoded with an own decoder) or coded by an own coder, in random order over files, with others, "
               "blanks and end markers, text or binary: each used procedure is in the object program once, word for word, relocated, where the program refers to it")
    m = c.n(160, 2000)
    c.run("running", libtest.run_case, [[s, v(i)] for i, s in enumerate(c.seeds("run", m))], min_ok=m * 9 // 10,
          rule="a program using all procedures gives the same object program and output with the standard procedures on other tapes")
    m = c.n(150, 2500)
    c.run("faults", libtest.corrupt_case, [[s, v(i), 60 if i % 10 else 15] for i, s in enumerate(c.seeds("bad", m))], min_ok=m * 9 // 10,
          rule="one inverted bit, a tape cut off, a missing procedure, a procedure of another length: an error message, or the same object program")
    m = c.n(160, 4000)
    c.run("arbitrary", libtest.wild_case, [[s, "san"] for s in c.seeds("wild", m)], min_ok=m // 2,
          rule="arbitrary tapes with right and wrong parity: the compiler ends with a message or a program, without sanitizer reports")
    m = c.n(300, 4000)
    c.run("damaged sources", libtest.damaged_source_case, [[s, v(i)] for i, s in enumerate(c.seeds("damaged", m))], min_ok=m * 9 // 10,
          rule="a source line of the assembler without its operation or word, missing, repeated or with another offset is refused with a message")
    c.require(loads=500, used=1000, runs=100, harmless=500, detected=2000, twice=100, **{
        "assembled-words": 50000, "words-compared": 10000, "own-coder": 300, "word-format": 100, "end-marker": 50, "repository-tapes": 8,
        "fault:flip": 3000, "fault:cut": 800, "fault:drop": 100, "fault:length": 100, "wild-tapes": 400,
        "missing named": 200, "several missing": 20, "refused sources: word": 30, "refused sources: operation": 30, "refused sources: sequence": 30})
