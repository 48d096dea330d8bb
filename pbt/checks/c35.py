"""C35: only the value of a weight counts, not its numeric type."""

import math
from fractions import Fraction

from hypothesis import strategies as st

from pbt import axioms, gen, rules
from pbt.core import Facet, expect_raises, require, sut
from pbt.exact import SOLVER
from pbt.gen import build, fmt

RULE = ("The same profile with weights as int/Fraction and as another numeric type (float, numpy "
        "integers and floats, gmpy2 numbers, bool, a mixture); all results must be the same.")
TECHNIQUE = "property-based testing (Hypothesis): metamorphic relation (change of numeric type)"
ASSUMPTIONS = ["weights are dyadic with few digits, i.e., floats represent them exactly",
               "gmpy2-fractions, standard-fractions and ortools-cp do not accept all types",
               "Thiele scores, SAV and sequential Thiele rules are subject to rounding if weights "
               "are floats; then scores are compared with a tolerance"]

FLOATS = ("float", "np.float64", "mixed-float")
EXACT = ("Fraction", "np.int64", "np.int32", "mpq", "mpz", "mixed-exact")
INTEGRAL = ("np.int64", "np.int32", "mpz")
TYPES = FLOATS + EXACT
DYADIC = ["1", "1", "2", "3", "1/2", "3/2", "1/4", "5/4", "4"]
#: algorithms that do not accept every numeric type
PICKY = ("gmpy2-fractions", "standard-fractions", "ortools-cp")
#: rules without divisions (floats of dyadic numbers are exact)
NO_ROUNDING = ("av", "cc", "lexcc", "geom2", "seqcc", "revseqcc", "seqgeom2", "revseqgeom2",
               "minimaxav", "trivial", "monroe", "greedy-monroe", "lexminimaxav")
#: rules that compare floats with a tolerance
TOLERANT = ("seqphragmen", "equal-shares", rules.NO_COMPLETION, "equal-shares-with-av-completion",
            "equal-shares-with-increment-completion", "phragmen-enestroem", "consensus-rule", "eph",
            "maximin-support", "minimaxphragmen", "leximaxphragmen")


def convert(text, kind, pos=0):
    import gmpy2
    import numpy as np

    value = Fraction(text)
    plain = int(value) if value.denominator == 1 else value
    if kind == "mixed-float":
        kind = ("float", "np.float64", "plain", "np.int64")[pos % 4]
    elif kind == "mixed-exact":
        kind = ("mpq", "plain", "np.int64", "Fraction")[pos % 4]
    if kind in INTEGRAL and value.denominator != 1:
        kind = "Fraction"
    return {
        "plain": lambda: plain,
        "float": lambda: float(value),
        "np.float64": lambda: np.float64(float(value)),
        "Fraction": lambda: value,
        "np.int64": lambda: np.int64(int(value)),
        "np.int32": lambda: np.int32(int(value)),
        "mpq": lambda: gmpy2.mpq(value.numerator, value.denominator),
        "mpz": lambda: gmpy2.mpz(int(value)),
    }[kind]()


def typed(case):
    from abcvoting.preferences import Profile, Voter

    profile = Profile(case["m"])
    for pos, (b, w) in enumerate(zip(case["b"], case["w"])):
        profile.add_voter(sut("Voter", Voter, b, weight=convert(w, case["type"], pos)))
    return profile


@st.composite
def profiles(draw, m=6, n=6, max_k=4, few=False):
    case = draw(gen.instances(max_m=m, max_n=n, max_k=max_k, modes=("unit",)))
    style = draw(st.sampled_from(["dyadic", "dyadic", "int", "unit"]))
    if few:
        case["b"] = case["b"][:2]
        values = ["1", "2", "1/2"]
    else:
        values = {"dyadic": DYADIC, "int": ["1", "2", "3", "5"], "unit": ["1"]}[style]
    case["w"] = [draw(st.sampled_from(values)) for _ in case["b"]]
    case["type"] = draw(st.sampled_from(TYPES))
    return case


@st.composite
def rule_cases(draw, ids, solver):
    rule_id = draw(st.sampled_from(ids))
    case = draw(profiles(*(6, 5, 3) if solver else (9, 12, 5), few=rule_id == "leximaxphragmen"))
    if rule_id in rules.UNIT_ONLY:
        case["w"] = ["1"] * len(case["b"])
    case["rule"] = rule_id
    algos = [a for a in rules.algorithms(rule_id)
             if a not in PICKY and (a in SOLVER) == solver]
    case["algo"] = draw(st.sampled_from(algos))
    return case


def value(rule_id, case, committee):
    """Score of a committee in floating point (Thiele rules and SAV)."""
    out = 0.0
    for b, w in zip(case["b"], case["w"]):
        x = len(set(b) & set(committee))
        if rule_id == "sav":
            out += float(Fraction(w)) * x / max(1, len(b))
            continue
        for i in range(1, x + 1):
            out += float(Fraction(w)) * {
                "pav": lambda: 1 / i, "slav": lambda: 1 / (2 * i - 1),
                "geom3": lambda: 3.0 ** (1 - i), "geom1.5": lambda: 1.5 ** (1 - i),
            }[rule_id]()
    return out


def check_rule(case, ctx):
    rule_id, algo, k = case["rule"], case["algo"], case["k"]
    floats = case["type"] in FLOATS
    seen = 0
    for resolute in rules.rule(rule_id).resolute_values:
        want = rules.compute(rule_id, build(case), k, algorithm=algo, resolute=resolute)
        what = f"{rule_id}/{algo}/resolute={resolute}, weights of type {case['type']}"
        profile = typed(case)
        types = [type(v.weight) for v in profile]
        got = rules.compute(rule_id, profile, k, algorithm=algo, resolute=resolute, what=what)
        require([type(v.weight) for v in profile] == types, f"{what}: types of weights changed")
        seen = max(seen, len(want))
        if rule_id == "rsd":
            require(len(got) == 1 and len(got[0]) == k, f"{what}: {got}")
        elif not floats or rule_id in NO_ROUNDING or rule_id in TOLERANT:
            if resolute and algo in SOLVER:  # any optimum
                full = rules.compute(rule_id, build(case), k, algorithm=algo, resolute=False)
                require(len(got) == 1 and got[0] in full, lambda: f"{what}: {got} not in {full}")
            else:
                require(fmt(got) == fmt(want),
                        lambda: f"{what}: {fmt(got)}, with int/Fraction {fmt(want)}")
        elif rule_id in ("pav", "slav", "geom3", "geom1.5", "sav"):
            best = value(rule_id, case, want[0])
            for com in got:
                require(len(com) == k and math.isclose(value(rule_id, case, com), best,
                                                       rel_tol=1e-9),
                        lambda: f"{what}: {set(com)} has a smaller score than {set(want[0])}")
        else:
            require(len(got) >= 1 and all(len(com) == k for com in got), f"{what}: {got}")
    ctx.label(case["type"])
    ctx.label(f"{rule_id}/{algo}")
    ctx.nontrivial(seen < rules.binom(case["m"], k))


SCORES = ["pav", "slav", "cc", "av", "geom2", "geom3/2", "atleast2"]


@st.composite
def score_cases(draw):
    case = draw(profiles(9, 15, 6))
    case["com"] = sorted(draw(st.sets(st.integers(0, case["m"] - 1), max_size=6)))
    case["score"] = draw(st.sampled_from(SCORES))
    return case


def close(a, b):
    return math.isclose(float(a), float(b), rel_tol=1e-9, abs_tol=1e-9)


def check_scores(case, ctx):
    from abcvoting import scores

    same = (lambda a, b: a == b) if case["type"] not in FLOATS else close
    plain, other = build(case), typed(case)
    sid, com = case["score"], case["com"]
    fct = scores.get_marginal_scorefct(sid)
    what = f"{sid} of {com}, weights of type {case['type']}"
    a = sut(what, scores.thiele_score, sid, plain, com)
    b = sut(what, scores.thiele_score, sid, other, com)
    require(same(a, b), lambda: f"thiele_score {what}: {b}, with int/Fraction {a}")
    for name in ("marginal_thiele_scores_add", "marginal_thiele_scores_remove"):
        f = getattr(scores, name)
        if name.endswith("add") and len(com) == case["m"]:
            continue
        x, y = sut(what, f, fct, plain, com), sut(what, f, fct, other, com)
        require(len(x) == len(y) and all(map(same, x, y)),
                lambda: f"{name} {what}: {y}, with int/Fraction {x}")
    if com:
        require(scores.minimaxav_score(plain, com) == scores.minimaxav_score(other, com),
                f"minimaxav_score {what}")
    ctx.label(case["type"])
    ctx.nontrivial(a != 0)


@st.composite
def axiom_cases(draw):
    case = draw(profiles(6, 6, 4))
    case["com"] = sorted(draw(st.sets(st.integers(0, case["m"] - 1), min_size=1,
                                      max_size=case["k"])))
    case["prop"] = draw(st.sampled_from(sorted(axioms.REFERENCE)))
    case["quota"] = None
    if case["prop"] in axioms.WITH_QUOTA:
        case["quota"] = draw(st.sampled_from([None, None, "1", "2", "3/2", "5/4"]))
        case["qtype"] = draw(st.sampled_from(["float", "np.float64", "np.int64", "mpq", "Fraction"]))
    return case


def check_axioms(case, ctx):
    from abcvoting import properties

    prop, com = case["prop"], case["com"]
    answers = set()
    for algo in ("gurobi", "brute-force", None):
        if algo is not None and prop in ("jr", "ejr+"):
            continue
        if algo == "brute-force" and "priceab" in prop:
            continue
        kw = {} if algo is None else {"algorithm": algo}
        quota = {} if case["quota"] is None else {"quota": gen.to_weight(case["quota"])}
        what = f"{prop} of {com} ({kw} {quota})"
        answers.add(sut(what, properties.check, prop, build(case), com, **quota, **kw))
        if quota:
            quota = {"quota": convert(case["quota"], case["qtype"])}
        what = f"{prop} of {com} ({kw} {quota}), weights of type {case['type']}"
        answers.add(sut(what, properties.check, prop, typed(case), com, **quota, **kw))
        require(len(answers) == 1, f"{what}: the answer differs from the one for int/Fraction or "
                                   "another algorithm")
    ctx.label(case["type"])
    ctx.label(f"{prop}: {answers.pop()}")
    ctx.nontrivial(len(com) < case["m"])


def total(profile):
    return sum(Fraction(float(v.weight)) for v in profile)


def check_profile(case, ctx):
    plain, other = build(case), typed(case)
    want = sum(map(Fraction, case["w"]))
    unit = all(w == "1" for w in case["w"])
    require(other.total_weight() == want, lambda: f"total_weight: {other.total_weight()}")
    require(bool(other.has_unit_weights()) == unit, "has_unit_weights")
    clone = other.copy()
    require([(set(v.approved), v.weight) for v in clone]
            == [(set(v.approved), v.weight) for v in other], "copy differs")
    require(str(other).count("\n") == str(plain).count("\n"), lambda: f"str: {other}")
    require(str(other).startswith("weighted") == (not unit), lambda: f"str: {other}")
    sut("str_compact", other.str_compact)
    sums = {}
    for b, w in zip(case["b"], case["w"]):
        sums[tuple(b)] = sums.get(tuple(b), 0) + Fraction(w)
    merged = other.copy()
    sut("convert_to_weighted", merged.convert_to_weighted)
    require({tuple(sorted(v.approved)): Fraction(float(v.weight)) for v in merged} == sums
            and len(merged) == len(sums), lambda: f"convert_to_weighted: {merged}")
    integral = all("/" not in w for w in case["w"])
    split = other.copy()
    if case["type"] in INTEGRAL and integral:
        sut("convert_to_unit_weights", split.convert_to_unit_weights)
        require(len(split) == want and split.has_unit_weights(),
                lambda: f"convert_to_unit_weights: {split}")
    elif not integral:
        expect_raises("convert_to_unit_weights", TypeError, split.convert_to_unit_weights)
        require(total(split) == want, "failed convert_to_unit_weights changed the profile")
    ctx.label(case["type"])
    ctx.nontrivial(len(case["b"]) > 1)


ALL = [r for r in rules.all_rule_ids()]
NATIVE = [r for r in ALL if any(a not in PICKY and a not in SOLVER for a in rules.algorithms(r))]
SOLVED = [r for r in ALL if any(a in ("gurobi", "mip-cbc") for a in rules.algorithms(r))]
FACETS = [
    Facet("rules", rule_cases(NATIVE, False), check_rule, 6000, 100000,
          "all rules with algorithms that accept all types; results compared with those for "
          "int/Fraction; non-trivial: not every committee wins"),
    Facet("solver-rules", rule_cases(SOLVED, True), check_rule, 1200, 20000,
          "the same for ILP algorithms"),
    Facet("scores", score_cases(), check_scores, 4000, 60000,
          "score functions; non-trivial: score is not zero"),
    Facet("axioms", axiom_cases(), check_axioms, 2500, 40000,
          "property checks (weights and quota of other types); non-trivial: not all candidates"),
    Facet("profiles", profiles(9, 12), check_profile, 4000, 60000,
          "methods of profiles; non-trivial: at least two voters"),
]
