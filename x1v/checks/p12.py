from .. import diff, notetest
VARIANTS = ("plain", "san")


def run(c):
    c.assumptions = ["text after end is taken without brackets and quotes; adjacent underlined words are separated by a blank or line break; "
                     "composite symbols, underlined words and strings are not broken up"]
    n = c.n(480, 8000)
    cfg = sorted(diff.CFG)
    c.run("programs", notetest.case, [[s, cfg[i % len(cfg)], "san" if i % 8 == 0 else "plain"] for i, s in enumerate(c.seeds("notes", n))], min_ok=n // 2,
          rule="generated programs in 3 random notations: object programs identical; renamed: same printed values; other characters after the ninth: identical")
    n = c.n(400, 8000)
    c.run("symbols", notetest.tiny_case, [[s, "san" if i % 8 == 0 else "plain"] for i, s in enumerate(c.seeds("tiny", n))], min_ok=n // 2,
          rule="small programs with every symbol in 8 random notations: object programs identical")
    k = c.n(1, 20)
    c.run("repository", notetest.source_case, [[f, s, "plain"] for s in c.seeds("src", k) for f in notetest.sources()], min_ok=5,
          rule="the repository's own programs, stripped of layout and comments, and in 4 other notations: object programs identical")
    c.require(notations=3000, renamed=200, gap=500, inner=200, comment=500, endtext=500, **{"ops:ascii": 200, "style:combining": 200, "style:multi": 200})
