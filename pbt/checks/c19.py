"""C19: Pareto, priceability and core checks decide their definitions."""

from pbt.axcheck import cases, check_exact, check_large, large_cases
from pbt.checks.c18 import check_agree
from pbt.core import Facet

RULE = ("Answers of every check and algorithm compared with the definition: enumeration of all "
        "committees (Pareto), exact rational linear programming (price systems), enumeration of all "
        "deviations (core).")
TECHNIQUE = "property-based testing (Hypothesis): reference model, differential between algorithms"
ASSUMPTIONS = ["float weights only with exactly representable sums", "non-empty committees"]

FACETS = [
    Facet("pareto-core", cases((6, 6), ("pareto", "core")), check_exact, 12000, 250000,
          "up to 6 (sometimes 12) candidates, 6 voters; non-trivial: some candidate is not in the "
          "committee and some ballot is not empty"),
    Facet("priceability", cases((5, 5), ("priceability", "stable-priceability"),
                                modes=("unit", "unit", "small-int", "frac", "dyadic")),
          check_exact, 8000, 120000, "the same for price systems, exact linear programming"),
    Facet("agreement", cases((8, 14), ("pareto", "core"), modes=("unit", "int")), check_agree,
          1500, 30000, "8 candidates, up to 14 voters: brute force and gurobi agree"),
    Facet("large", large_cases(("pareto", "core"), (5, 9), (15, 60), (2, 5)), check_large,
          800, 20000, "up to 9 candidates, 60 voters, both algorithms compared with the definition",
          min_shard=20, minimise=True),
]
