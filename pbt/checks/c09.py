"""C09: sequential Thiele rules follow their greedy process with all ties."""

from pbt.exact import facet, geometric_facet, pairs, uniform_facet
from pbt.large import large_facet

RULE = "Outcomes compared with an exact parallel-universe simulation of the greedy process."
S = ["seqpav", "seqslav", "seqcc", "seqgeom2", "seqgeom1.5"]
R = ["revseqpav", "revseqslav", "revseqcc", "revseqgeom2"]
FACETS = [
    facet("sequential", S, 10000, 200000, size=(7, 7, 6)),
    facet("reverse", R, 8000, 150000, size=(6, 7, 6)),
    uniform_facet("uniform", pairs(S + R, False), 6000, 120000, (4, 9), (3, 12), (2, 7)),
    facet("sequential-larger", S, 800, 20000, size=(12, 30, 6), wide=False),
    facet("reverse-larger", R, 800, 20000, size=(10, 20, 8), wide=False),
    geometric_facet("geometric", ["seq", "revseq"], False, 1600, 30000, (3, 9), (2, 12), (2, 7)),
    large_facet("large", pairs(S + R, False), 1500, 40000),
    large_facet("huge", pairs(S, False), 120, 3000, (40, 120), (100, 400), (5, 25), min_shard=10),
    large_facet("huge-reverse", pairs(R, False), 60, 1500, (30, 80), (60, 250), (5, 40), min_shard=6),
]
