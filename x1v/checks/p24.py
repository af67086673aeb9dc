from .. import machtest
VARIANTS = ("plain", "san")


def run(c):
    c.assumptions = ["counting a negative number, numbers of more than 15 bits in B, devices, and the U form are not judged", "values are seen through TIRS and print"]
    n = c.n(2500, 60000)
    c.run("instructions", machtest.case, [[s, "san" if i % 5 == 0 else "plain"] for i, s in enumerate(c.seeds("instructions", n))], min_ok=n * 9 // 10,
          rule="random object programs of machine instructions over random words, with jumps, loops and Y/N forms; registers, condition and memory are printed "
               "on the way and at the end and compared with a model of the machine; unknown instructions stop")
    ops = ["0220", "0244", "0320", "0350", "0600", "0640", "1200", "1220", "1240", "1600", "3431", "3620", "4020", "4200", "4220", "4240", "4600", "5100", "5220",
           "5404", "6714", "7700"]
    c.require(**{"values compared": 200000, "condition: skipped": 20000, "condition: done": 20000, "unknown instruction": 200, "to the end": 2000, "shift": 10000,
                 **{"i:" + o: 300 for o in ops}})
