"""C03: all algorithms of a rule compute the same winners."""

from hypothesis import strategies as st

from pbt import gen, large, rules
from pbt.core import Facet, require
from pbt.exact import modes_for
from pbt.gen import build, fmt

RULE = "Differential testing of all algorithms of a rule, including the default one."
TECHNIQUE = "property-based testing (Hypothesis): differential testing between algorithms"
ASSUMPTIONS = ["mip-gurobi cannot start in this sandbox (no licence for Python-MIP) and is skipped",
               "float arithmetic is compared only on profiles with moderate weights"]

MULTI = [r for r in rules.all_rule_ids() if len(rules.algorithms(r)) > 1]
ILP = [r for r in MULTI if "gurobi" in rules.algorithms(r)]
FRACTION = [r for r in MULTI if r not in ILP]


@st.composite
def cases(draw, ids, size):
    rule_id = draw(st.sampled_from(ids))
    m, n, k, min_m, min_n = size
    modes = modes_for(rule_id, rules.algorithms(rule_id)[0])
    case = draw(gen.instances(max_m=m, max_n=n, max_k=k, min_m=min_m, min_n=min_n, modes=modes))
    case["rule"] = rule_id
    return case


def check(case, ctx, resolute=None):
    rule_id, k = case["rule"], case["k"]
    results = {}
    if resolute is None:
        resolute = False not in rules.rule(rule_id).resolute_values
    for algo in rules.algos_for(rule_id, case) + ["fastest", None]:
        if algo == "fastest" and rule_id == "cc" and "ortools-cp" not in rules.algos_for(rule_id,
                                                                                       case):
            if rules.rule(rule_id).fastest_available_algorithm() == "ortools-cp":
                continue
        kw = {} if algo is None else {"algorithm": algo}
        got = fmt(rules.compute(rule_id, build(case), k, resolute=resolute, **kw))
        results[algo] = got
    ref_algo, ref = next(iter(results.items()))
    for algo, got in results.items():
        require(
            got == ref,
            lambda: f"{rule_id}: {algo or 'default'} returns {rules.show(got)}, but {ref_algo} "
                    f"returns {rules.show(ref)}",
        )
    ctx.label(rule_id)
    if len(ref) > 1:
        ctx.label("ties")
    ctx.nontrivial(len(ref) < rules.binom(case["m"], k))


@st.composite
def uniform(draw, ids, m, n, k):
    rule_id = draw(st.sampled_from(ids))
    case = draw(gen.uniform(m, n, k, modes_for(rule_id, rules.algorithms(rule_id)[0])))
    case["rule"] = rule_id
    return case


@st.composite
def large_cases(draw):
    case = draw(large.any_cases([(r, rules.algorithms(r)[0]) for r in MULTI
                                 if r in large.SEQUENTIAL + large.OPTIMISING]))
    return case


def check_large(case, ctx):
    if large.number_of_winners(case) is not None:
        check(case, ctx)
    elif case["rule"] in ("seqphragmen", "equal-shares", rules.NO_COMPLETION):
        ctx.label("many ties: only resolute")
        check(case, ctx, resolute=True)  # ties are broken in the same way by all algorithms


NT = "non-trivial: not every committee of size k wins"
FACETS = [
    Facet("large", large_cases(), check_large, 900, 20000,
          f"up to 24 candidates and 80 voters for {FRACTION}, up to 12 candidates and 35 voters for "
          f"Thiele and minimax AV rules, weights up to multiples of 100000; {NT}", minimise=True),
    Facet("fractions", cases(FRACTION, (7, 9, 5, 1, 1)), check, 4000, 80000,
          f"float, gmpy2 and standard fractions for {FRACTION}; {NT}"),
    Facet("fractions-larger", cases(FRACTION, (12, 40, 6, 7, 10)), check, 600, 15000,
          f"larger profiles; {NT}"),
    Facet("fractions-uniform", uniform(FRACTION, (4, 8), (3, 10), (2, 6)), check, 4000, 80000,
          f"evenly distributed pseudo-random profiles; {NT}", minimise=True),
    Facet("optimisation", cases([r for r in ILP if r != "leximaxphragmen"], (6, 7, 4, 1, 1)),
          check, 2000, 40000, f"all solvers and combinatorial algorithms for {ILP}; {NT}"),
    Facet("optimisation-larger",
          cases([r for r in ILP if r not in ("leximaxphragmen", "maximin-support", "monroe")],
                (9, 16, 4, 6, 8)), check, 250, 6000, f"larger profiles; {NT}"),
    Facet("optimisation-uniform",
          uniform([r for r in ILP if r not in ("leximaxphragmen", "maximin-support")],
                  (4, 7), (3, 12), (2, 4)), check, 500, 10000,
          f"evenly distributed pseudo-random profiles; {NT}", minimise=True),
]
