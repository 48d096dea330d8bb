"""C04: Thiele rules and lex-CC return exactly the optimal committees."""

from pbt.exact import facet, geometric_facet, pairs, uniform_facet
from pbt.large import large_facet

RULE = "Winner sets compared with exhaustive exact (rational) maximisation over all committees."
ASSUMPTIONS = ["mip-gurobi cannot start in this sandbox (no licence for Python-MIP) and is skipped"]
THIELE = ["pav", "slav", "cc", "geom2", "geom3", "geom1.5", "lexcc"]

FACETS = [
    facet("combinatorial", THIELE, 12000, 200000, size=(6, 7, 5)),
    facet("combinatorial-larger", THIELE, 1200, 30000, size=(9, 16, 6), wide=False),
    uniform_facet("uniform", pairs(THIELE, False), 5000, 100000, (4, 8), (3, 14), (2, 6)),
    facet("solver", THIELE, 4000, 60000, size=(6, 7, 5), solver=True),
    facet("solver-larger", THIELE, 300, 8000, size=(9, 16, 6), solver=True, wide=False),
    uniform_facet("solver-uniform", pairs(THIELE, True), 800, 20000, (4, 7), (3, 12), (2, 4)),
    geometric_facet("geometric", [""], False, 1600, 30000, (3, 8), (2, 12), (2, 6)),
    geometric_facet("solver-geometric", [""], True, 400, 8000, (3, 6), (2, 10), (2, 4)),
    large_facet("large", pairs(THIELE, False), 600, 15000, (9, 13), (18, 45), (3, 6)),
    large_facet("solver-large", pairs(THIELE, True), 300, 8000, (9, 13), (15, 40), (3, 5)),
    large_facet("many-seats", pairs(THIELE, False), 160, 4000, (10, 14), (10, 30), (7, 12), min_shard=10),
    large_facet("solver-many-seats", pairs(["pav", "slav", "cc", "lexcc", "geom1.5"], True), 160, 4000,
                (10, 13), (10, 25), (7, 11), ("unit", "unit", "int"), min_shard=10),
]
