"""C01: every rule returns well-formed committees."""

from hypothesis import strategies as st

from pbt import gen, large, rules
from pbt.core import Facet, require
from pbt.gen import build, unit

RULE = "Generated profiles, committee sizes, rules, algorithms and resolute settings."
ASSUMPTIONS = ["mip-gurobi cannot start in this sandbox (no licence for Python-MIP) and is skipped"]

SOLVER = {"gurobi", "mip-cbc", "ortools-cp"}


def rule_algo_pairs(solver):
    out = []
    for r in rules.all_rule_ids():
        for a in rules.algorithms(r):
            if (a in SOLVER) == solver:
                for res in rules.rule(r).resolute_values:
                    out.append([r, a, res])
    return out


@st.composite
def cases(draw, solver):
    r, a, res = draw(st.sampled_from(rule_algo_pairs(solver)))
    modes = ("unit", "int", "frac", "small")
    if r in rules.UNIT_ONLY:
        modes = ("unit",)
    elif (r, a) == ("cc", "ortools-cp"):
        modes = ("unit", "int")
    if r == "leximaxphragmen":
        inst = draw(gen.lightweight(max_m=5))
    elif solver:
        inst = draw(gen.instances(max_m=6, max_n=6, modes=modes, wide=False, max_k=5))
    else:
        inst = draw(gen.instances(max_m=7, max_n=7, modes=modes, wide=True, max_k=6))
    inst.update(rule=r, algo=a, resolute=res)
    # keep exponential tie enumeration bounded: only a few winners when there are many ties
    inst["max"] = draw(st.sampled_from([None, None, None, 1, 2, 5])) if not res else None
    return inst


def check_result(case, res, ctx):
    from abcvoting.misc import CandidateSet

    r, k, m = case["rule"], case["k"], case["m"]
    what = f"{r}/{case['algo']}/resolute={case['resolute']}/max={case['max']}"
    require(isinstance(res, list), f"{what}: result is {type(res).__name__}, not a list")
    require(len(res) > 0, f"{what}: no committee returned")
    for com in res:
        require(isinstance(com, CandidateSet), f"{what}: {com!r} is a {type(com).__name__}")
        if r == rules.NO_COMPLETION:
            require(len(com) <= k, f"{what}: committee {com} too large")
        else:
            require(len(com) == k, f"{what}: committee {com} has not size {k}")
        require(
            all(isinstance(c, int) and not isinstance(c, bool) and 0 <= c < m for c in com),
            f"{what}: committee {set(com)} contains non-candidates",
        )
    keys = [tuple(sorted(c)) for c in res]
    require(len(set(keys)) == len(keys), f"{what}: duplicate committees {keys}")
    # canonical order: by textual representation, as documented for sorted_committees
    texts = ["{" + ", ".join(sorted(str(c) for c in com)) + "}" for com in keys]
    require(texts == sorted(texts), f"{what}: committees not in canonical order: {keys}")
    if case["resolute"]:
        require(len(res) == 1, f"{what}: {len(res)} committees although resolute")
    if case["max"] is not None:
        require(len(res) <= case["max"], f"{what}: more than max_num_of_committees committees")
    ctx.label(("weighted " if not unit(case) else "unit ") + ("resolute" if case["resolute"] else
              "irresolute"))
    ctx.label("rule " + r)
    approved = set().union(*map(set, case["b"]))
    if len(approved) < k:
        ctx.label("fewer approved candidates than seats")
    ctx.nontrivial(0 < k < m and len(set(map(tuple, case["b"]))) > 1)


def check(case, ctx):
    profile = build(case)
    kw = dict(algorithm=case["algo"], resolute=case["resolute"])
    if case["max"] is not None:
        kw["max_num_of_committees"] = case["max"]
    res = rules.compute(case["rule"], profile, case["k"], **kw)
    check_result(case, res, ctx)


def check_all(case, ctx):
    """One small instance through every rule and algorithm."""
    for solver in (False, True):
        for r, a, res in rule_algo_pairs(solver):
            if not rules.applicable(r, a, case):
                continue
            sub = dict(case, rule=r, algo=a, resolute=res, max=None)
            check(sub, ctx)
    ctx.nontrivial(True)


@st.composite
def large_cases(draw):
    kinds = large.SEQUENTIAL + large.OPTIMISING
    case = draw(large.any_cases([(r, a) for r in kinds for a in rules.algorithms(r)]))
    res = draw(st.sampled_from(list(rules.rule(case["rule"]).resolute_values)))
    limit = draw(st.sampled_from([None, None, 1, 2, 5, 11])) if not res else None
    return dict(case, resolute=res, max=limit)


def check_large(case, ctx):
    if case["resolute"] or large.number_of_winners(case) is not None:
        check(case, ctx)


FACETS = [
    Facet("large", large_cases(), check_large, 1500, 30000,
          "up to 24 candidates and 80 voters (Thiele and minimax AV rules: 12 and 35); non-trivial: "
          "0<k<m and two different ballots", minimise=True),
    Facet("standard", cases(False), check, 4000, 60000,
          "one profile, one rule, non-solver algorithm; non-trivial: 0<k<m and at least two "
          "different ballots"),
    Facet("solver", cases(True), check, 900, 15000,
          "one profile, one rule, ILP/CP algorithm; non-trivial: 0<k<m and two different ballots"),
    Facet("everything", gen.instances(max_m=4, max_n=4, modes=("unit", "int", "frac"), max_k=3),
          check_all, 40, 1200,
          "one small profile through every rule x algorithm x resolute combination (each case is "
          "about 130 calls)", min_shard=5),
]
