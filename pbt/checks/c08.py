"""C08: minimax- and leximax-Phragmen return exactly the optimal load balancings."""

from pbt.exact import facet, pairs, uniform_facet
from pbt.large import large_facet

RULE = ("Optimal loads by Hall-type ratios over all subsets of the committee (minimax) and peeling "
        "of densest subsets (leximax), exact rationals, all committees.")
ASSUMPTIONS = [
    "mip-gurobi cannot start in this sandbox (no licence for Python-MIP) and is skipped",
    "leximax-Phragmen only with at most 5 (copies of) voters: its ILPs take minutes beyond",
]
FACETS = [
    facet("minimax", ["minimaxphragmen"], 2500, 40000, size=(6, 7, 5), solver=True),
    facet("minimax-larger", ["minimaxphragmen"], 200, 4000, size=(8, 14, 5), solver=True,
          wide=False),
    uniform_facet("minimax-uniform", pairs(["minimaxphragmen"], True), 500, 10000, (4, 7), (3, 10),
                  (2, 5)),
    facet("leximax", ["leximaxphragmen"], 400, 8000, size=(5, 5, 5), solver=True, min_shard=10),
    large_facet("minimax-large", pairs(["minimaxphragmen"], True), 300, 6000, (8, 11), (12, 18),
                (3, 5)),
    large_facet("minimax-many-seats", pairs(["minimaxphragmen"], True), 80, 2000, (8, 10), (6, 14),
                (5, 8), min_shard=10),
]
