"""C13: rules are anonymous and neutral."""

import random

from hypothesis import strategies as st

from pbt import gen, large, rules, savfloat
from pbt.core import Facet
from pbt.exact import SOLVER, modes_for, pairs
from pbt.gen import build, fmt, unit

RULE = "Metamorphic: permute voters and candidates, compare all winning committees."
TECHNIQUE = "property-based testing (Hypothesis): metamorphic relation (permutations)"
ASSUMPTIONS = ["mip-gurobi cannot start in this sandbox (no licence for Python-MIP) and is skipped",
               "leximax-Phragmen only with at most 5 (copies of) voters",
               "rules that only support resolute=True break ties by index and are not covered"]


@st.composite
def cases(draw, solver, size):
    choices = [p for p in pairs(rules.all_rule_ids(), solver)
               if False in rules.rule(p[0]).resolute_values]
    rule_id, algo = draw(st.sampled_from(choices))
    m, n, k, min_m, min_n = size
    if rule_id == "leximaxphragmen":
        case = draw(gen.lightweight(max_m=5))
    else:
        case = draw(gen.instances(max_m=m, max_n=n, max_k=k, modes=modes_for(rule_id, algo),
                                  min_m=min_m, min_n=min_n,
                                  wide=min_m == 1, wide_max_k=2 if algo in SOLVER else 4))
    case["rule"] = rule_id
    case["algo"] = algo
    case["vperm"] = draw(st.permutations(list(range(len(case["b"])))))
    case["cperm"] = draw(st.permutations(list(range(case["m"]))))
    return case


def check(case, ctx):
    rule_id, algo, k = case["rule"], case["algo"], case["k"]
    kw = dict(algorithm=algo, resolute=False)
    base = set(fmt(rules.compute(rule_id, build(case), k, **kw)))
    vp = case["vperm"]
    shuffled = dict(case, b=[case["b"][i] for i in vp], w=[case["w"][i] for i in vp])
    got = set(fmt(rules.compute(rule_id, build(shuffled), k, **kw)))
    savfloat.compare(rule_id, f"{rule_id}/{algo} after reordering the voters by {vp}", got, base,
                     case, ctx)
    cp = case["cperm"]
    renamed = dict(case, b=[sorted(cp[c] for c in ballot) for ballot in case["b"]])
    got = set(fmt(rules.compute(rule_id, build(renamed), k, **kw)))
    want = {tuple(sorted(cp[c] for c in com)) for com in base}
    savfloat.compare(rule_id, f"{rule_id}/{algo} after renaming the candidates by {cp}", got, want,
                     renamed, ctx)
    ctx.label(f"{rule_id}/{algo}")
    ctx.label("unit weights" if unit(case) else "weighted")
    ctx.nontrivial(len(base) < rules.binom(case["m"], k) and (
        cp != sorted(cp) or vp != sorted(vp)))


@st.composite
def uniform(draw, solver, m, n, k):
    rule_id, algo = draw(st.sampled_from(
        [p for p in pairs(rules.all_rule_ids(), solver)
         if False in rules.rule(p[0]).resolute_values
         and p[0] not in ("leximaxphragmen", "trivial")]))
    case = draw(gen.uniform(m, n, k, modes_for(rule_id, algo)))
    return permuted(draw, dict(case, rule=rule_id, algo=algo))


def permuted(draw, case):
    rng = random.Random(draw(st.integers(0, 2**32)))
    vperm, cperm = list(range(len(case["b"]))), list(range(case["m"]))
    rng.shuffle(vperm)
    rng.shuffle(cperm)
    return dict(case, vperm=vperm, cperm=cperm)


@st.composite
def large_cases(draw):
    kinds = large.SEQUENTIAL + large.OPTIMISING
    return permuted(draw, draw(large.any_cases(
        [p for p in pairs(rules.all_rule_ids(), None)
         if p[0] in kinds and False in rules.rule(p[0]).resolute_values])))


def check_uniform(case, ctx):
    """The minimiser may remove voters and candidates: renumber the permutations."""
    def fit(perm, size):
        perm = [x for x in perm if x < size]
        return perm + [x for x in range(size) if x not in perm]

    check(dict(case, vperm=fit(case["vperm"], len(case["b"])),
               cperm=fit(case["cperm"], case["m"])), ctx)


def check_large(case, ctx):
    if large.number_of_winners(case) is not None:
        check_uniform(case, ctx)


NT = "non-trivial: not every committee wins and at least one permutation is not the identity"
FACETS = [
    Facet("standard", cases(False, (7, 8, 5, 1, 1)), check, 8000, 150000,
          f"one profile, one rule/algorithm, two permutations; {NT}",
          corpus=[dict(savfloat.MISSED_TIE, vperm=[2, 0, 1, 3, 4, 5], cperm=[0, 1, 2, 3])]),
    Facet("standard-larger", cases(False, (12, 30, 4, 8, 10)), check, 1000, 20000,
          f"larger profiles; {NT}"),
    Facet("solver", cases(True, (6, 6, 4, 1, 1)), check, 2500, 40000,
          f"the same for ILP/CP algorithms; {NT}"),
    Facet("uniform", uniform(False, (4, 8), (3, 12), (2, 6)), check_uniform, 4000, 80000,
          f"evenly distributed pseudo-random profiles; {NT}", minimise=True),
    Facet("solver-uniform", uniform(True, (4, 7), (3, 10), (2, 4)), check_uniform, 400, 8000,
          f"evenly distributed pseudo-random profiles; {NT}", minimise=True),
    Facet("large", large_cases(), check_large, 900, 20000,
          f"up to 24 candidates and 80 voters (Thiele and minimax AV rules: 12 and 35); {NT}",
          minimise=True),
]
