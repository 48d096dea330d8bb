"""C10: seq-Phragmen and maximin support follow their definition with all ties."""

from pbt import rules
from pbt.exact import facet, pairs, uniform_facet
from pbt.large import large_facet

RULE = "Outcomes compared with an exact parallel-universe simulation."
ASSUMPTIONS = ["mip-gurobi cannot start in this sandbox (no licence for Python-MIP) and is skipped"]
FACETS = [
    facet("seqphragmen", ["seqphragmen"], 14000, 250000, size=(6, 7, 6), solver=None),
    facet("seqphragmen-larger", ["seqphragmen"], 800, 20000, size=(9, 25, 6), wide=False),
    uniform_facet("floats", [("seqphragmen", rules.FLOAT)], 6000, 120000, (4, 8), (3, 10), (2, 6)),
    uniform_facet("uniform", pairs(["seqphragmen"], False), 3000, 60000, (4, 9), (3, 12), (2, 7)),
    facet("maximin", ["maximin-support"], 1600, 30000, size=(5, 6, 4), solver=True),
    large_facet("large", pairs(["seqphragmen"], False), 800, 20000),
    large_facet("maximin-large", pairs(["maximin-support"], True), 200, 4000, (8, 10), (10, 16),
                (3, 4)),
    large_facet("huge", pairs(["seqphragmen"], False), 100, 2500, (40, 120), (100, 400), (5, 25), min_shard=10),
]
