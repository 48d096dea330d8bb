"""C02: resolute and truncated results are drawn from the full winner set."""

from hypothesis import strategies as st

from pbt import gen, large, rules
from pbt.core import Facet, expect_raises, require, sut
from pbt.exact import SOLVER, modes_for, pairs
from pbt.gen import build, fmt

RULE = ("Relation between the results of one rule and algorithm with resolute=False, resolute=True "
        "and max_num_of_committees=N.")
TECHNIQUE = "property-based testing (Hypothesis): metamorphic relation between parameter settings"
ASSUMPTIONS = ["mip-gurobi cannot start in this sandbox (no licence for Python-MIP) and is skipped",
               "leximax-Phragmen only with at most 5 (copies of) voters"]


def both(solver):
    return [p for p in pairs(rules.all_rule_ids(), solver) if False in
            rules.rule(p[0]).resolute_values]


@st.composite
def cases(draw, solver, size):
    choices = both(solver)
    rule_id, algo = draw(st.sampled_from(choices))
    m, n, k = size
    if rule_id == "leximaxphragmen":
        case = draw(gen.lightweight(max_m=5))
    else:
        case = draw(gen.instances(max_m=m, max_n=n, max_k=k, modes=modes_for(rule_id, algo),
                                  wide=True, wide_max_k=2 if algo in SOLVER else 3))
    case["rule"] = rule_id
    case["algo"] = algo
    case["N"] = draw(st.one_of(st.integers(1, 4), st.integers(1, 30)))
    return case


@st.composite
def uniform(draw, solver, m, n, k):
    rule_id, algo = draw(st.sampled_from(
        [p for p in both(solver) if p[0] not in ("leximaxphragmen", "trivial")]))
    case = draw(gen.uniform(m, n, k, modes_for(rule_id, algo)))
    case["rule"] = rule_id
    case["algo"] = algo
    case["N"] = draw(st.integers(1, 5))
    return case


def check(case, ctx):
    rule_id, algo, k, n = case["rule"], case["algo"], case["k"], case["N"]
    what = f"{rule_id}/{algo}"
    full = fmt(rules.compute(rule_id, build(case), k, algorithm=algo, resolute=False))
    if True in rules.rule(rule_id).resolute_values:
        one = fmt(rules.compute(rule_id, build(case), k, algorithm=algo, resolute=True))
        require(len(one) == 1, lambda: f"{what}: resolute result {one}")
        require(one[0] in full, lambda: f"{what}: resolute committee {one[0]} not among {full}")
    for num in sorted({n, 1, 2, 3, max(1, len(full) - 1), len(full), len(full) + 1}):
        part = fmt(rules.compute(rule_id, build(case), k, algorithm=algo, resolute=False,
                                 max_num_of_committees=num))
        require(len(set(part)) == len(part),
                lambda: f"{what}, max_num_of_committees={num}: duplicates in {part}")
        require(set(part) <= set(full),
                lambda: f"{what}, max_num_of_committees={num}: {rules.show(set(part) - set(full))}"
                        f" not among all winners {rules.show(full)}")
        require(len(part) == min(num, len(full)),
                lambda: f"{what}, max_num_of_committees={num}: {len(part)} committees, but there "
                        f"are {len(full)} winning committees")
    ctx.label(what)
    ctx.nontrivial(len(full) > 1)


def check_large(case, ctx):
    if large.number_of_winners(case) is not None:
        check(case, ctx)


@st.composite
def large_cases(draw):
    kinds = large.SEQUENTIAL + large.OPTIMISING
    case = draw(large.any_cases([p for p in both(False) + both(True) if p[0] in kinds],
                                modes=("unit", "unit", "unit", "int", "huge", "frac"),
                                sizes={False: ((8, 20), (4, 14), (2, 8)),
                                       True: ((8, 11), (4, 12), (3, 5))}))
    return dict(case, N=draw(st.integers(1, 8)))


@st.composite
def lexicographic_cases(draw):
    if draw(st.booleans()):
        return draw(gen.lightweight(max_m=5, max_copies=5))
    m = draw(st.integers(3, 6))
    ballot = st.lists(st.integers(0, m - 1), min_size=2, max_size=m, unique=True).map(sorted)
    b = draw(st.lists(ballot, min_size=1, max_size=3))
    return {"m": m, "b": b, "w": ["1"] * len(b), "k": draw(st.integers(1, min(3, m - 1)))}


def check_lexicographic(case, ctx):
    """lexicographic_tiebreaking=True returns the first of all winning committees."""
    from abcvoting import abcrules

    what = "compute_leximaxphragmen"
    k = case["k"]
    full = fmt(sut(what, abcrules.compute_leximaxphragmen, build(case), k, resolute=False))
    got = fmt(sut(what, abcrules.compute_leximaxphragmen, build(case), k, resolute=True,
                  lexicographic_tiebreaking=True))
    require(got == [min(full)], lambda: f"{what}(lexicographic_tiebreaking=True): {got}, but the "
                                        f"winning committees are {rules.show(full)}")
    expect_raises(what + "(lexicographic_tiebreaking=True, resolute=False)", ValueError,
                  abcrules.compute_leximaxphragmen, build(case), k, resolute=False,
                  lexicographic_tiebreaking=True)
    ctx.nontrivial(len(full) > 1)


FACETS = [
    Facet("large", large_cases(), check_large, 3000, 60000,
          "8 to 20 candidates, up to 14 voters and 8 seats; non-trivial: "
          "at least two winning committees", minimise=True),
    Facet("lexicographic", lexicographic_cases(), check_lexicographic, 400, 6000,
          "leximax-Phragmen with lexicographic_tiebreaking=True; non-trivial: at least two winning "
          "committees", min_shard=40),
    Facet("standard", cases(False, (6, 6, 5)), check, 8000, 150000,
          "one profile, one rule/algorithm, N in {1, drawn, total-1, total, total+1}; non-trivial: "
          "at least two winning committees"),
    Facet("uniform", uniform(False, (4, 7), (2, 10), (2, 5)), check, 6000, 120000,
          "evenly distributed pseudo-random profiles; non-trivial: at least two winning committees",
          minimise=True),
    Facet("solver-uniform", uniform(True, (4, 6), (2, 8), (2, 4)), check, 400, 8000,
          "evenly distributed pseudo-random profiles; non-trivial: at least two winning committees",
          minimise=True),
    Facet("solver", cases(True, (5, 5, 4)), check, 1600, 25000,
          "the same for ILP/CP algorithms; non-trivial: at least two winning committees"),
]
