from .. import listtest
VARIANTS = ("plain", "san")


def run(c):
    c.assumptions = ["the spaces between name and address are not judged", "the address is confirmed by the first constants and references in the object program at that place"]
    n = c.n(4000, 60000)
    c.run("lists", listtest.case, [[s, "san" if i % 10 == 0 else "plain"] for i, s in enumerate(c.seeds("lists", n))], min_ok=n * 9 // 10,
          rule="programs of nested blocks, procedures, switches and labels, each followed by the assignment of a constant of its own or by a jump or call to a name listed before: "
               "the list has all names in order, with the address where that constant or reference is; the cells are listed once each")
    c.require(programs=3600, label=8000, procedure=700, switch=400, function=300, **{
        "address by constant": 8000, "address by reference": 700, "label used before it stands": 1500, "label of a compound or block": 300,
        "addresses beyond 1024": 60, "addresses beyond 2048": 20, "name of 1": 200, "name of 4": 1000, "name of 5": 1000, "name of 9": 800, "name of 10": 800})
