"""C06: Minimax AV rules minimise the Hamming distances exactly."""

from pbt.exact import facet, pairs, uniform_facet
from pbt.large import large_facet

RULE = "Winner sets compared with exhaustive minimisation over all committees."
ASSUMPTIONS = ["mip-gurobi cannot start in this sandbox (no licence for Python-MIP) and is skipped"]
R = ["minimaxav", "lexminimaxav"]
FACETS = [
    facet("brute-force", R, 14000, 200000, size=(6, 7, 6)),
    facet("brute-force-larger", R, 1000, 20000, size=(9, 20, 7), wide=False),
    uniform_facet("uniform", pairs(R, False), 4000, 80000, (4, 8), (2, 14), (2, 6)),
    uniform_facet("solver-uniform", pairs(R, True), 800, 20000, (4, 7), (3, 10), (2, 5)),
    facet("solver", R, 4000, 60000, size=(6, 6, 6), solver=True),
    facet("solver-larger", R, 300, 6000, size=(9, 12, 7), solver=True, wide=False),
    large_facet("large", pairs(R, False), 600, 15000, (9, 13), (18, 45), (3, 6)),
    large_facet("solver-large", pairs(R, True), 150, 4000, (9, 12), (15, 30), (3, 5)),
    large_facet("many-seats", pairs(R, False), 160, 4000, (10, 14), (10, 30), (7, 12), min_shard=10),
    large_facet("solver-many-seats", pairs(R, True), 100, 2500, (10, 13), (10, 20), (7, 11),
                min_shard=10),
]
