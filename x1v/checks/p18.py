from .. import sametest
VARIANTS = ("plain", "san")


def run(c):
    n = c.n(420, 8000)
    c.assumptions = ["a program that uses TIMEOFDAY is only compiled, not run, more than once; programs running longer than a second are left out"]
    c.run("ways", sametest.case, [[s, "san"] for s in c.seeds("ways", n)], min_ok=n * 2 // 3,
          rule="each program is compiled and run again in six of thirteen ways (object program, pipes, other build with other memory layout, names, "
               "directories, environments, filled heap, left-over files, library by other ways): object program, output, messages and status equal the first ones")
    m = c.n(36, 500)
    c.run("valgrind", sametest.valgrind_case, [[s, "plain"] for s in c.seeds("vg", m)], min_ok=m // 3,
          rule="compiler and simulator under valgrind memcheck: no use of memory never set")
    m = c.n(60, 1500)
    c.run("random", sametest.random_case, [[s, "san"] for s in c.seeds("random", m)], min_ok=m * 9 // 10,
          rule="sequences of RANDOM after SETRANDOM with the same seed, after other histories and in other programs, are equal")
    c.require(runs=1000, compilations=300, objects=300, rejected=5, valgrind=10, sequences=100, **{"run-to-end": 150, "run-time-error": 30, "way:pipe": 80,
              "way:x1": 150, "way:other": 80, "way:name": 80, "way:left": 80, "way:env": 80, "way:dir": 80})
