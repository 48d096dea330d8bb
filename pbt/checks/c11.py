"""C11: the Method of Equal Shares spends budgets as defined."""

from pbt import rules
from pbt.exact import facet, pairs, uniform_facet
from pbt.large import large_facet

RULE = "Outcomes compared with an exact parallel-universe simulation of budgets and completions."
M = ["equal-shares", "equal-shares-with-av-completion", rules.NO_COMPLETION]
I = ["equal-shares-with-increment-completion"]
FACETS = [
    facet("completions", M, 14000, 250000, size=(6, 7, 5)),
    facet("increment", I, 4000, 80000, size=(6, 7, 5)),
    facet("completions-larger", M, 800, 20000, size=(8, 25, 5), wide=False),
    uniform_facet("floats", [(r, rules.FLOAT) for r in M + I], 5000, 120000, (4, 7), (3, 10),
                  (2, 5)),
    uniform_facet("uniform", pairs(M + I, False), 4000, 80000, (4, 8), (2, 12), (2, 6)),
    facet("increment-larger", I, 500, 10000, size=(9, 25, 6), wide=False),
    large_facet("large", pairs(M + I, False), 600, 15000, (8, 18), (12, 60), (2, 8)),
    large_facet("huge", pairs(M + I, False), 100, 2500, (30, 100), (80, 300), (5, 20), min_shard=10),
]
