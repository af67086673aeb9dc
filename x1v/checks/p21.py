from .. import libproc
VARIANTS = ("plain", "san")


def run(c):
    c.assumptions = ["arguments of EVEN and XEEN are integers (a real is rejected by the simulator with a message)",
                     "whether the controlled variable's subscript may change while SUM runs is not judged",
                     "TIMEOFDAY is compared with the clock of this machine; changes to daylight saving time are not exercised"]
    v = lambda s: "san" if s % 10 == 0 else "plain"
    n = c.n(9000, 250000)
    c.run("programs", libproc.case, [[s, v(s)] for s in c.seeds("programs", n)], min_ok=n * 9 // 10,
          rule="generated programs with SUM (nested, recursive, through formals), EVEN, XEEN and PRINTTEXT (strings through chains of formals) in all contexts, judged by a reference interpreter")
    n = c.n(300, 6000)
    c.run("random", libproc.random_case, [[s, v(s)] for s in c.seeds("random", n)], min_ok=n * 9 // 10,
          rule="sequences of RANDOM after SETRANDOM: range, spread, equal for equal seeds within a program, between programs and between contexts, different for different seeds")
    n = c.n(400, 6000)
    c.run("time", libproc.time_case, [[s, v(s)] for s in c.seeds("time", n)], min_ok=n * 9 // 10,
          rule="TIMEOFDAY in all contexts and time zones against the clock before and after")
    c.require(sum=100000, **{"sum-term": 300000, "xeen": 5000, "xeen:zero": 20, "xeen:minus": 50, "text": 5000, "string:3": 100, "written EVEN": 1500, "written nested SUM": 3000,
                            "written empty SUM": 1500, "written controlled variable through a formal": 300, "random numbers": 50000, "times compared with the clock": 600,
                            "library on the command line": 200})
