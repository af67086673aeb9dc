from .. import arrgen, diff
VARIANTS = ("plain", "san")


def run(c):
    c.assumptions = ["only accesses outside the storage of the whole array are errors: a subscript outside its own bound pair whose "
                     "element lies inside the array is not generated"]
    n = c.n(1600, 40000)
    c.run("histories", arrgen.case, [[s, "san" if i % 16 == 0 else "plain"] for i, s in enumerate(c.seeds("hist", n))], min_ok=n // 2,
          rule="arrays of all kinds and guard variables side by side; random writes, copies, passing, re-entered blocks; every element and "
               "every guard printed at the end and compared with the reference; a third of the programs end in an access outside an array")
    c.run("programs", diff.case, diff.mix(c, "programs", c.n(2500, 40000), {"arrays": 1}), min_ok=500,
          rule="random programs rich in arrays against the reference interpreter")
    c.require(subscript=50000, outside=200, dump=2000, dynamic=1000, recursive=100, **{"messages with subscript and bounds": 40, "wrapping subscript": 100, "subscript wrapping at 2^32": 10})
