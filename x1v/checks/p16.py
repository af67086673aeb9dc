from .. import tracetest
VARIANTS = ("plain", "san")


def run(c):
    n = c.n(430, 9000)
    c.assumptions = ["programs that ran longer than a second, or whose trace is over 40 MB, are left out"]
    c.run("traces", tracetest.case, [[s, "san" if i % 12 == 0 else "plain"] for i, s in enumerate(c.seeds("traces", n))], min_ok=n * 3 // 4,
          rule="each run is repeated with trace options and must not differ; the trace is followed line by line with a model of memory, stack, "
               "display and registers: loaded words, instruction words and addresses, order of execution, values read and written, returns, register changes")
    c.require(steps=300000, effects=50000, stores=5000, calls=5000, returns=5000, merged=10, **{"end:error": 20, "memory-reads": 50000, "goto-exits": 20})
