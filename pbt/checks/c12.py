"""C12: Enestroem, consensus, EPH, RSD and trivial rules follow their process."""

import random
from math import sqrt

from hypothesis import strategies as st

from pbt import gen, ref, rules
from pbt.core import Facet, require
from pbt.exact import facet, pairs, uniform_facet
from pbt.large import large_facet

RULE = "Outcomes compared with an exact parallel-universe simulation."
R = ["phragmen-enestroem", "consensus-rule", "eph", "trivial"]
RUNS = 600


@st.composite
def rsd_cases(draw):
    m, n = draw(st.integers(2, 6)), draw(st.integers(2, 4))
    ballots = st.lists(st.integers(0, m - 1), min_size=1, max_size=m - 1, unique=True).map(sorted)
    return {"m": m, "b": draw(st.lists(ballots, min_size=n, max_size=n)), "w": ["1"] * n,
            "k": draw(st.integers(1, min(3, m - 1))), "seed": draw(st.integers(0, 9999))}


def check_rsd_orders(case, ctx):
    """Every order of the voters is possible; all orders are equally likely."""
    want = ref.rsd_distribution(ref.Inst(case))
    profile = gen.build(case)
    random.seed(case["seed"])
    count = {}
    for _ in range(RUNS):
        got = gen.fmt(rules.compute("rsd", profile, case["k"]))[0]
        count[got] = count.get(got, 0) + 1
    require(set(count) <= set(want),
            lambda: f"rsd: {rules.show(set(count) - set(want))} is not possible")
    for com, prob in want.items():
        p = float(prob)
        if p < 1 / 24:  # not enough runs
            continue
        got = count.get(com, 0)
        # 7 standard deviations and never more than what a missing outcome would need:
        # (1 - p) ** RUNS < 1e-11
        slack = 7 * sqrt(p * (1 - p) * RUNS)
        require(got > 0 and abs(got - p * RUNS) <= max(slack, 20),
                lambda: f"rsd: {com} returned {got} times in {RUNS} runs, expected {p * RUNS:.1f} "
                        f"(voters in random order)")
    ctx.nontrivial(len(want) > 1)


FACETS = [
    facet("sequential", R, 16000, 250000, size=(6, 7, 5)),
    facet("larger", R, 1000, 20000, size=(8, 20, 5), wide=False),
    uniform_facet("floats", [(r, rules.FLOAT) for r in ("phragmen-enestroem", "consensus-rule")],
                  4000, 80000, (4, 7), (3, 10), (2, 5)),
    uniform_facet("uniform", pairs(R, False), 4000, 80000, (4, 7), (2, 12), (2, 5)),
    facet("rsd", ["rsd"], 2000, 30000, size=(6, 4, 5)),
    Facet("rsd-orders", rsd_cases(), check_rsd_orders, 240, 3000,
          f"{RUNS} runs of RSD for each profile with 2-4 voters: each outcome with its exact "
          "probability; non-trivial: at least two possible outcomes", min_shard=20),
    large_facet("large", pairs([r for r in R if r not in ("rsd", "trivial")], False), 800, 20000),
    large_facet("huge", pairs(["consensus-rule", "eph"], False), 120, 3000, (40, 120), (100, 400), (5, 25), min_shard=10),
    large_facet("huge-enestroem", pairs(["phragmen-enestroem"], False), 40, 1000, (20, 45), (40, 120),
                (3, 9), min_shard=5),
]
