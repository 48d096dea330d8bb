"""C07: Monroe and Greedy Monroe follow balanced assignments."""

from pbt.exact import facet, pairs, uniform_facet
from pbt.large import large_facet

RULE = ("Monroe: exhaustive maximisation with an exact assignment (dynamic programming); Greedy "
        "Monroe: membership in the set of outcomes under all choices of candidates and districts.")
ASSUMPTIONS = ["mip-gurobi cannot start in this sandbox (no licence for Python-MIP) and is skipped"]
FACETS = [
    facet("monroe", ["monroe"], 3000, 60000, size=(6, 7, 5)),
    facet("greedy", ["greedy-monroe"], 6000, 100000, size=(5, 7, 5)),
    uniform_facet("uniform", pairs(["monroe"], False), 1500, 30000, (4, 7), (3, 12), (2, 4)),
    uniform_facet("greedy-uniform", pairs(["greedy-monroe"], False), 2000, 40000, (4, 6), (3, 8),
                  (2, 5)),
    facet("solver", ["monroe"], 2500, 40000, size=(6, 7, 5), solver=True),
    facet("solver-larger", ["monroe"], 200, 4000, size=(7, 12, 4), solver=True, wide=False),
    large_facet("greedy-large", pairs(["greedy-monroe"], False), 800, 20000, (4, 8), (8, 24), (2, 5)),
    large_facet("uniform-large", pairs(["monroe"], None), 200, 5000, (6, 8), (10, 20), (2, 4)),
    large_facet("many-seats", pairs(["monroe"], None), 100, 2500, (7, 9), (8, 14), (5, 8), min_shard=10),
    large_facet("greedy-many-seats", pairs(["greedy-monroe"], False), 200, 5000, (8, 12), (8, 16), (5, 8)),
]
