"""Facets comparing a rule with its exact reference model."""

from hypothesis import strategies as st

from pbt import gen, oracle, rules, savfloat
from pbt.core import Facet, require
from pbt.gen import build, fmt, unit

SOLVER = ("gurobi", "mip-cbc", "ortools-cp")


def modes_for(rule_id, algo):
    if rule_id in rules.UNIT_ONLY:
        return ("unit",)
    if (rule_id, algo) == ("cc", "ortools-cp"):
        return ("unit", "int")
    if algo in SOLVER:
        return ("unit", "unit", "int", "frac", "balanced")
    return ("unit", "unit", "int", "frac", "small", "balanced")


def pairs(rule_ids, solver):
    return [
        (r, a) for r in rule_ids for a in rules.algorithms(r)
        if solver is None or (a in SOLVER) == solver
    ]


@st.composite
def cases(draw, choices, size, wide=True):
    rule_id, algo = draw(st.sampled_from(choices))
    m, n, k = size
    large = max(m, n) > 7
    if rule_id == "leximaxphragmen":
        case = draw(gen.lightweight(max_m=min(m, 5)))
    else:
        case = draw(gen.instances(max_m=m, max_n=n, max_k=k, modes=modes_for(rule_id, algo),
                                  wide=wide, wide_max_k=2 if algo in SOLVER else None,
                                  min_m=m - 3 if large else 1, min_n=n // 2 if large else 1))
    case["rule"] = rule_id
    case["algo"] = algo
    return case


def check_exact(case, ctx):
    rule_id, algo = case["rule"], case["algo"]
    k = case["k"]
    want, want_one = oracle.expected(rule_id, case)
    for resolute in rules.rule(rule_id).resolute_values:
        profile = build(case)
        res = rules.compute(rule_id, profile, k, algorithm=algo, resolute=resolute)
        got = fmt(res)
        what = f"{rule_id}/{algo}/resolute={resolute}"
        require(len(got) == len(set(got)), lambda: f"{what}: duplicates in {got}")
        if resolute:
            require(len(got) == 1, lambda: f"{what}: {len(got)} committees")
            require(
                got[0] in want_one,
                lambda: f"{what}: got {got[0]}, expected {'one of ' if len(want_one) > 1 else ''}"
                        f"{rules.show(want_one)} (all winners: {rules.show(want)})",
            )
        elif rule_id == "sav" and set(got) != want and savfloat.explained(case, got):
            ctx.known_hits.append("sav-float")
            ctx.label("known finding: tie missed by float sums (sav)")
        else:
            rules.compare(what, set(got), want)
    ctx.label(f"{rule_id}/{algo}")
    ctx.label("unit weights" if unit(case) else "weighted")
    if len(want) > 1:
        ctx.label("ties")
    total = rules.binom(case["m"], k)
    ctx.nontrivial(len(want) < total)


NONTRIVIAL = "non-trivial: not every committee of size k wins"


@st.composite
def uniform_cases(draw, choices, m, n, k, modes):
    rule_id, algo = draw(st.sampled_from(choices))
    if rule_id in rules.UNIT_ONLY:
        modes = ("unit",)
    elif (rule_id, algo) == ("cc", "ortools-cp"):
        modes = ("unit", "int")
    case = draw(gen.uniform(m, n, k, modes))
    case["rule"] = rule_id
    case["algo"] = algo
    return case


def uniform_facet(name, choices, quick, thorough, m, n, k, modes=("unit", "unit", "int", "frac"),
                  min_shard=40):
    """choices: (rule, algorithm) pairs; m, n, k: inclusive ranges."""
    return Facet(
        name, uniform_cases(choices, m, n, k, modes), check_exact, quick, thorough,
        f"evenly distributed pseudo-random profiles with {m[0]}-{m[1]} candidates, {n[0]}-{n[1]} "
        f"voters, k in {k[0]}-{k[1]}; rules/algorithms {[f'{r}/{a}' for r, a in choices]}; both "
        "resolute settings compared with the exact reference; " + NONTRIVIAL,
        min_shard=min_shard, minimise=True,
    )


def facet(name, rule_ids, quick, thorough, size=(6, 7, 5), solver=False, wide=True, corpus=(),
          what=None, min_shard=40):
    choices = pairs(rule_ids, solver)
    return Facet(
        name, cases(choices, size, wide), check_exact, quick, thorough,
        (what or f"profiles with up to {size[0]} candidates (sometimes up to 12, few of them "
                 f"approved), {size[1]} voters, k<={size[2]}; "
                 f"rules/algorithms {[f'{r}/{a}' for r, a in choices]}; both resolute settings "
                 "compared with the exact reference") + "; " + NONTRIVIAL,
        corpus=corpus, min_shard=min_shard,
    )


BASES = ["2", "3", "1.5", "3/2", "1.125", "2.25", "10", "1.0625", "22/7", "101/100", "5"]
HUGE_BASES = BASES + ["100", "12345", "1000000", "355/113", "1000001/1000000"]


@st.composite
def geometric_cases(draw, kinds, solver, m, n, k):
    rule_id, algo = draw(st.sampled_from(pairs([f"{x}geom2" for x in kinds], solver)))
    base = draw(st.sampled_from(BASES if solver else HUGE_BASES))
    case = draw(gen.uniform(m, n, k, ("unit", "unit", "int", "frac")))
    return dict(case, rule=rule_id[:-1] + base, algo=algo)


def geometric_facet(name, kinds, solver, quick, thorough, m, n, k):
    """Geometric rules with other parameters; kinds: prefixes of the rule ids."""
    return Facet(
        name, geometric_cases(kinds, solver, m, n, k), check_exact, quick, thorough,
        f"geometric rules {kinds} with parameters {BASES if solver else HUGE_BASES}; evenly "
        "distributed pseudo-random profiles; both resolute settings compared with the exact "
        "reference; " + NONTRIVIAL, min_shard=40, minimise=True)
