"""C14: integer weights mean copies of voters; common factors do not matter."""

from fractions import Fraction

from hypothesis import strategies as st

from pbt import gen, large, rules, savfloat
from pbt.core import Facet, sut
from pbt.exact import SOLVER, modes_for, pairs
from pbt.gen import build, fmt

RULE = ("Metamorphic: expand weighted voters into copies (by hand and with the conversion methods "
        "of Profile), multiply all weights by a factor; compare all winning committees.")
TECHNIQUE = "property-based testing (Hypothesis): metamorphic relation (weights)"
ASSUMPTIONS = ["mip-gurobi cannot start in this sandbox (no licence for Python-MIP) and is skipped",
               "leximax-Phragmen only with at most 5 (copies of) voters"]
FACTORS = ["2", "3", "10", "1/2", "1/3", "7/5", "1/10", "1000", "123457"]


@st.composite
def cases(draw, solver, scaling):
    choices = [p for p in pairs(rules.all_rule_ids(), solver) if p[0] not in rules.UNIT_ONLY]
    rule_id, algo = draw(st.sampled_from(choices))
    if rule_id == "leximaxphragmen":
        case = draw(gen.lightweight(max_m=5))
        if not scaling and any("/" in w for w in case["w"]):
            case["w"] = ["1"] * len(case["w"])
    else:
        modes = modes_for(rule_id, algo) if scaling else ("int", "small-int")
        case = draw(gen.instances(max_m=6, max_n=6, max_k=4, modes=modes, wide=True,
                                  wide_max_k=2 if algo in SOLVER else 3))
    case["rule"] = rule_id
    case["algo"] = algo
    if scaling:
        factors = FACTORS
        if (rule_id, algo) == ("cc", "ortools-cp"):
            factors = ["2", "3", "10", "1000", "123457"]
        case["factor"] = draw(st.sampled_from(factors))
    return case


def _winners(case, profile):
    resolute = rules.rule(case["rule"]).resolute_values
    return set(fmt(rules.compute(case["rule"], profile, case["k"], algorithm=case["algo"],
                                 resolute=False not in resolute)))


def check_copies(case, ctx):
    what = f"{case['rule']}/{case['algo']}"
    base = _winners(case, build(case))
    expanded = dict(case, b=[b for b, w in zip(case["b"], case["w"]) for _ in range(int(w))])
    expanded["w"] = ["1"] * len(expanded["b"])
    savfloat.compare(case["rule"], f"{what} with copies instead of weights",
                     _winners(case, build(expanded)), base, case, ctx)
    profile = build(case)
    sut("convert_to_unit_weights", profile.convert_to_unit_weights)
    savfloat.compare(case["rule"], f"{what} after convert_to_unit_weights()", _winners(case, profile), base,
                     case, ctx)
    profile = build(expanded)
    sut("convert_to_weighted", profile.convert_to_weighted)
    savfloat.compare(case["rule"], f"{what} after convert_to_weighted()", _winners(case, profile), base,
                     case, ctx)
    ctx.label(what)
    ctx.nontrivial(len(base) < rules.binom(case["m"], case["k"])
                   and len(expanded["b"]) > len(case["b"]))


def check_scaling(case, ctx):
    what = f"{case['rule']}/{case['algo']}"
    base = _winners(case, build(case))
    factor = Fraction(case["factor"])
    scaled = dict(case, w=[str(Fraction(w) * factor) for w in case["w"]])
    savfloat.compare(case["rule"], f"{what} after multiplying all weights by {factor}",
                     _winners(case, build(scaled)), base, case, ctx)
    ctx.label(what)
    ctx.nontrivial(len(base) < rules.binom(case["m"], case["k"]))


@st.composite
def uniform(draw, solver, m, n, k, scaling):
    rule_id, algo = draw(st.sampled_from(
        [p for p in pairs(rules.all_rule_ids(), solver) if p[0] not in rules.UNIT_ONLY
         and p[0] not in ("leximaxphragmen", "trivial")]))
    case = draw(gen.uniform(m, n, k, modes_for(rule_id, algo) if scaling else ("small-int",)))
    return with_factor(draw, dict(case, rule=rule_id, algo=algo))


def with_factor(draw, case):
    factors = FACTORS
    if (case["rule"], case["algo"]) == ("cc", "ortools-cp"):
        factors = ["2", "3", "10", "1000", "123457"]
    return dict(case, factor=draw(st.sampled_from(factors)))


@st.composite
def large_cases(draw, solver, modes):
    kinds = [r for r in large.SEQUENTIAL + large.OPTIMISING if r not in rules.UNIT_ONLY]
    case = draw(large.any_cases([p for p in pairs(kinds, None) if solver or p[1] not in SOLVER],
                                modes))
    return with_factor(draw, case)


def check_large_copies(case, ctx):
    if large.number_of_winners(case) is not None:
        check_copies(case, ctx)


def check_large_scaling(case, ctx):
    if large.number_of_winners(case) is not None:
        check_scaling(case, ctx)


LARGE = "up to 24 candidates and 80 voters (Thiele and minimax AV rules: 12 and 35)"
FACETS = [
    Facet("uniform-copies", uniform(False, (4, 8), (3, 10), (2, 6), False), check_copies, 2500,
          50000, "evenly distributed pseudo-random profiles", minimise=True),
    Facet("uniform-scaling", uniform(False, (4, 8), (3, 12), (2, 6), True), check_scaling, 2500,
          50000, "evenly distributed pseudo-random profiles", minimise=True),
    Facet("large-copies", large_cases(False, ("int",)), check_large_copies, 300, 10000,
          LARGE + ", weights up to 10", minimise=True),
    Facet("large-scaling", large_cases(True, ("unit", "int", "frac")), check_large_scaling, 600,
          15000, LARGE, minimise=True),
    Facet("copies", cases(False, False), check_copies, 5000, 100000,
          "integer weights vs. copies; non-trivial: not every committee wins and some weight > 1"),
    Facet("copies-solver", cases(True, False), check_copies, 1200, 20000,
          "the same for ILP/CP algorithms"),
    Facet("scaling", cases(False, True), check_scaling, 6000, 120000,
          "common factor on all weights; non-trivial: not every committee wins",
          corpus=[dict(savfloat.MISSED_TIE, factor="1/3")]),
    Facet("scaling-solver", cases(True, True), check_scaling, 1500, 25000,
          "the same for ILP/CP algorithms"),
]
