from .. import clitest
VARIANTS = ("plain", "san")


def run(c):
    c.assumptions = ["x1sim found through PATH (library in /usr/local) is not exercised: nothing is installed here", "the checks run as root: unreadable files and directories are not exercised"]
    v = lambda s: "san" if s % 12 == 0 else "plain"
    n = c.n(4000, 60000)
    c.run("simulator", clitest.sim_case, [[s, v(s)] for s in c.seeds("simulator", n)], min_ok=n * 9 // 10,
          rule="x1sim in a scratch tree: file names, library places (told apart by a marker the program prints), options in all positions, ways to call it; "
               "all files compared before and after, the object file run again")
    n = c.n(300, 6000)
    c.run("compiler", clitest.compiler_case, [[s, v(s)] for s in c.seeds("compiler", n)], min_ok=n * 9 // 10,
          rule="x1algc: file or standard input, text and binary tapes, one or two, verbose: the same object program")
    n = c.n(8, 60)
    c.run("usage", clitest.usage_case, [[s, "plain" if i % 4 else "san"] for i, s in enumerate(c.seeds("usage", n))], min_ok=n * 60,
          rule="options that only print and a list of wrong command lines: message, exit status, nothing run, no files changed")
    c.require(**{"command lines:plain": 3000, "object files run": 900, "library arguments": 300, "library by default": 500, "X1ALGOL_LIB": 300, "trace file": 200,
                 "place  home .x1algol.lib": 80, "place  pre fix lib x1algol.lib": 80, "place  pre library x1algol.lib": 30, "usage: usage": 50, "usage: missing": 30, "called here": 100, "called bin": 100})
