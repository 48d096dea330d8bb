"""C18: JR, PJR, EJR, EJR+ and FJR checks decide their definitions."""

from fractions import Fraction

from hypothesis import strategies as st

from pbt.core import Facet, require
from pbt.axcheck import cases, check_exact, check_large, large_cases, make, run
from pbt import axioms

RULE = ("Answers of every check and algorithm compared with a direct translation of the definition "
        "(all groups of voters enumerated, exact arithmetic), for random and for near-optimal "
        "committees of any size and for default and custom quotas.")
TECHNIQUE = "property-based testing (Hypothesis): reference model, differential between algorithms"
ASSUMPTIONS = ["float weights only with exactly representable sums",
               "non-empty committees (the default quota is undefined otherwise)"]
PROPS = ("jr", "pjr", "ejr", "ejr+", "fjr")


def check_agree(case, ctx):
    """Larger instances: all algorithms return the same answer."""
    prop, com, quota = case["prop"], case["com"], case["quota"]
    profile = make(case)
    answers = {a: run(prop, profile, com, quota, a) for a in axioms.ALGORITHMS[prop]}
    require(len(set(answers.values())) == 1,
            lambda: f"check({prop!r}, {com}, quota={quota}): {answers}")
    ctx.label(f"{prop}: {answers['gurobi']}")
    ctx.nontrivial(len(com) < case["m"])


@st.composite
def fjr_cases(draw):
    """Groups that deserve a set of which every member approves only some candidates."""
    m = draw(st.integers(4, 8))
    ell = draw(st.integers(3, min(m, 6)))
    beta = draw(st.integers(1, max(1, ell - 1)))
    order = draw(st.permutations(range(m)))
    group, rest = order[:ell], order[ell:]
    size = draw(st.integers(ell, 9))
    b = [sorted(draw(st.permutations(group))[:beta]) for _ in range(size)]
    for _ in range(draw(st.integers(0, 3))):
        b.append(sorted(draw(st.sets(st.integers(0, m - 1), max_size=3))))
    com = [c for c in rest if draw(st.booleans())]
    com += [c for c in group if draw(st.integers(0, 3)) == 0]
    com = sorted(com or [order[-1]])
    case = {"m": m, "k": len(com), "b": b, "com": com, "prop": draw(
        st.sampled_from(["fjr", "fjr", "fjr", "core", "ejr"]))}
    weights = draw(st.sampled_from([["1"], ["1"], ["1", "2"], ["1", "1/2", "2/3"]]))
    case["w"] = [draw(st.sampled_from(weights)) for _ in b]
    total = sum(Fraction(w) for w in case["w"][:size])
    case["quota"] = draw(st.sampled_from([
        None, "1", "1", str(total / ell), str(total / ell), str(total / ell + Fraction(1, 60)),
        "3/2", "1/2"]))
    case["order"] = [ell, beta]
    return case


def check_fjr(case, ctx):
    check_exact(case, ctx)
    s = axioms.Setting(case, case["com"], case["quota"])
    if case["prop"] == "fjr":
        gap = [size - beta for beta, size in axioms.fjr_witnesses(s)]
        ctx.label(f"smallest |T| - beta: {min(gap)}" if gap else "no witness")


FACETS = [
    Facet("definition", cases((6, 6), PROPS), check_exact, 20000, 400000,
          "up to 6 (sometimes 12) candidates, 6 voters; non-trivial: some candidate is not in the "
          "committee and some ballot is not empty"),
    Facet("definition-more-voters", cases((5, 9), PROPS, modes=("unit", "int", "frac")),
          check_exact, 3000, 60000, "5 candidates, up to 9 voters"),
    Facet("agreement", cases((8, 14), ("pjr", "ejr", "fjr"), modes=("unit", "int")), check_agree,
          1500, 30000, "8 candidates, up to 14 voters: brute force and gurobi agree"),
    Facet("partially-cohesive", fjr_cases(), check_fjr, 2500, 50000,
          "groups of voters who approve only some members of a common set"),
    Facet("large", large_cases(("pjr", "ejr", "fjr"), (5, 8), (15, 60), (2, 5)), check_large,
          800, 20000, "up to 8 candidates, 60 voters, both algorithms compared with definitions "
          "that are polynomial in the number of voters", min_shard=20, minimise=True),
    Facet("large-polynomial", large_cases(("jr", "ejr+"), (8, 60), (50, 400), (2, 15)), check_large,
          800, 20000, "JR and EJR+ with up to 60 candidates and 400 voters", min_shard=20,
          minimise=True),
]
