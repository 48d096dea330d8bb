"""C36: rules respond consistently to changes of the electorate."""

import random
from fractions import Fraction

from hypothesis import strategies as st

from pbt import gen, large, rules
from pbt.core import Facet, require
from pbt.exact import SOLVER, modes_for, pairs
from pbt.gen import build, fmt

RULE = ("Theorems about pairs of elections: united electorates (reinforcement), many copies of an "
        "electorate against few further voters (continuity), one further approval for a winning "
        "candidate (monotonicity), removal of a losing candidate (contraction).")
TECHNIQUE = "property-based testing (Hypothesis): metamorphic relations between elections"
ASSUMPTIONS = ["mip-gurobi cannot start in this sandbox (no licence for Python-MIP) and is skipped",
               "leximax-Phragmen only with at most 5 (copies of) voters"]

THIELE = ["av", "pav", "slav", "cc", "geom2", "geom1.5", "geom3", "lexcc"]
SEQTHIELE = ["seqpav", "seqslav", "seqcc", "seqgeom2", "seqgeom1.5"]
# winners are the maxima of a sum over voters, or of a lexicographic order of such sums
ADDITIVE = THIELE + ["lexminimaxav"]
REINFORCEMENT = ADDITIVE + ["minimaxav"]
# (lexicographic orders are not continuous)
CONTINUITY = [r for r in ADDITIVE if not r.startswith("lex")] + SEQTHIELE + ["seqphragmen"]
MONOTONE = REINFORCEMENT + SEQTHIELE + ["sav", "monroe", "minimaxphragmen", "leximaxphragmen",
                                        "seqphragmen", "maximin-support"]
# a losing candidate leaves: the winners without her are the winners of the smaller election
CONTRACTION_ALL = THIELE + ["monroe", "minimaxphragmen", "leximaxphragmen"]
# ... they are among the winners of the smaller election
CONTRACTION = SEQTHIELE + ["seqphragmen", "maximin-support", "equal-shares",
                           "equal-shares-with-av-completion", rules.NO_COMPLETION,
                           "phragmen-enestroem", "consensus-rule"]
PHRAGMEN = ("minimaxphragmen", "leximaxphragmen")


def winners(case, profile_case):
    resolute = False not in rules.rule(case["rule"]).resolute_values
    return set(fmt(rules.compute(case["rule"], build(profile_case), profile_case["k"],
                                 algorithm=case["algo"], resolute=resolute)))


@st.composite
def base(draw, rule_ids, solver, size, max_n=None, copies=5, floats=True):
    rule_id, algo = draw(st.sampled_from([p for p in pairs(rule_ids, solver)
                                          if floats or p[1] != rules.FLOAT]))
    if rule_id == "leximaxphragmen":
        case = draw(gen.lightweight(max_m=5, max_copies=copies, unit_only=copies < 5))
    elif draw(st.booleans()):
        m, n, k = size
        case = draw(gen.uniform((min(3, m), m), (2, max_n or n), (1, k), modes_for(rule_id, algo)))
    else:
        m, n, k = size
        case = draw(gen.instances(max_m=m, max_n=max_n or n, max_k=k,
                                  modes=modes_for(rule_id, algo)))
    return dict(case, rule=rule_id, algo=algo)


@st.composite
def two_electorates(draw, rule_ids, solver, size, floats=True):
    case = draw(base(rule_ids, solver, size, floats=floats))
    modes = [x for x in modes_for(case["rule"], case["algo"]) if x != "balanced"]
    m = case["m"]
    style = draw(st.integers(0, 3))
    if style == 0:  # a united group of voters
        group = sorted(draw(st.permutations(range(m)))[:draw(st.integers(1, m))])
        b2 = [group] * draw(st.integers(1, 2))
    elif style == 1:  # the ballots of the others, in other numbers
        b2 = [list(draw(st.sampled_from(case["b"])))
              for _ in range(draw(st.integers(1, size[1])))]
    else:
        b2 = draw(gen.ballots(m, size[1]))
    return dict(case, b2=b2, w2=draw(gen.weights(len(b2), draw(st.sampled_from(modes)))))


@st.composite
def large_cases(draw, rule_ids, modes, second=False):
    kinds = [r for r in rule_ids if r in large.SEQUENTIAL + large.OPTIMISING]
    case = draw(large.any_cases([p for p in pairs(kinds, False) if p[1] != rules.FLOAT], modes))
    if second:
        rng = random.Random(draw(st.integers(0, 2**48)))
        other = large.large_case(rng, (case["m"], case["m"]), (5, len(case["b"])), (2, 3),
                                 ["unit"] if case["rule"] in rules.UNIT_ONLY else modes)
        b2 = other["b"]
        if rng.random() < 0.7:
            b2 = [list(rng.choice(case["b"])) for _ in b2]
        case = dict(case, b2=b2, w2=other["w"])
    return case


def parts(case):
    first = {"m": case["m"], "b": case["b"], "w": case["w"], "k": case["k"]}
    second = dict(first, b=case["b2"], w=case["w2"])
    return first, second


def check_reinforcement(case, ctx):
    first, second = parts(case)
    one, two = winners(case, first), winners(case, second)
    both = one & two
    what = f"{case['rule']}/{case['algo']}"
    if both:
        united = winners(case, dict(first, b=first["b"] + second["b"],
                                    w=first["w"] + second["w"]))
        msg = (f"{what} for two united electorates which both elect {rules.show(both)} "
               "(and may elect others on their own)")
        if case["rule"] == "minimaxav":
            require(both <= united, lambda: f"{msg}: elected {rules.show(united)}")
        else:
            rules.compare(msg, united, both)
    ctx.label(what)
    ctx.label("common winners" if both else "no common winner")
    ctx.nontrivial(bool(both) and len(both) < len(one | two))


def check_continuity(case, ctx):
    first, second = parts(case)
    one = winners(case, first)
    what = f"{case['rule']}/{case['algo']}"
    factor = case["factor"]
    many = dict(first, w=[str(Fraction(w) * factor) for w in first["w"]])
    united = winners(case, dict(many, b=many["b"] + second["b"], w=many["w"] + second["w"]))
    require(united <= one,
            lambda: f"{what} elects {rules.show(united)} for {factor} copies of an electorate "
                    f"which on its own elects {rules.show(one)}, and {len(second['b'])} others")
    ctx.label(what)
    ctx.nontrivial(len(one) < rules.binom(case["m"], case["k"]))


@st.composite
def with_factor(draw, strategy):
    return dict(draw(strategy), factor=draw(st.sampled_from([10**7, 10**9, 10**12])))


@st.composite
def with_approval(draw, strategy):
    return dict(draw(strategy), pick=draw(st.integers(0, 2**16)))


def new_approvals(case, committee):
    """Ballots (as lists) with one further approval for a member of the committee."""
    return [(i, c) for i, b in enumerate(case["b"]) for c in committee if c not in b]


def check_monotone(case, ctx):
    first = {x: case[x] for x in ("m", "b", "w", "k")}
    what = f"{case['rule']}/{case['algo']}"
    approved = len(set().union(*map(set, case["b"])))
    ctx.label(what)
    if case["rule"] in PHRAGMEN and approved < case["k"]:
        return  # seats are filled arbitrarily
    before = winners(case, first)
    rng = random.Random(case["pick"])
    com = rng.choice(sorted(before))
    options = new_approvals(case, com)
    if not options:
        return
    i, c = rng.choice(options)
    changed = [sorted(b + [c]) if j == i else b for j, b in enumerate(case["b"])]
    after = winners(case, dict(first, b=changed))
    msg = (f"{what} elects {rules.show(before)}, and {rules.show(after)} once voter {i} "
           f"additionally approves {c}")
    require(any(c in x for x in after), msg)
    if case["rule"] in THIELE + ["monroe", "minimaxphragmen"]:
        # committees without c are worth the same, those with c at least the same
        require({x for x in after if c not in x} <= before, msg)
    if case["rule"] in ("av", "pav", "slav", "geom2", "geom1.5", "geom3", "lexminimaxav"):
        require(all(c in x for x in after), msg)
    ctx.nontrivial(not all(c in x for x in before)
                   or len(before) < rules.binom(case["m"], case["k"]))


def check_contraction(case, ctx):
    first = {x: case[x] for x in ("m", "b", "w", "k")}
    what = f"{case['rule']}/{case['algo']}"
    ctx.label(what)
    if case["k"] >= case["m"]:
        return
    before = winners(case, first)
    rng = random.Random(case["pick"])
    com = rng.choice(sorted(before))
    c = rng.choice([x for x in range(case["m"]) if x not in com])
    smaller = dict(first, m=case["m"] - 1,
                   b=[[x - (x > c) for x in b if x != c] for b in case["b"]])
    if case["rule"] in PHRAGMEN and len(set().union(*map(set, smaller["b"]))) < case["k"]:
        return
    remaining = {tuple(x - (x > c) for x in com) for com in before if c not in com}
    after = winners(case, smaller)
    msg = f"{what} elects {rules.show(before)}; without candidate {c}"
    if case["rule"] in CONTRACTION_ALL:
        rules.compare(msg + " (renamed)", after, remaining)
    else:
        require(remaining <= after, lambda: f"{msg}, {rules.show(after)} (renamed), "
                                            f"where {rules.show(remaining - after)} is missing")
    ctx.nontrivial(any(c in b for b in case["b"]))


def bounded(check):
    """The check for large cases, unless there are too many winners."""
    def run(case, ctx):
        if large.number_of_winners(case) is not None:
            check(case, ctx)
    return run


S = (6, 7, 4)
SS = (5, 6, 3)
L = large.MODES
LARGE = "up to 24 candidates and 80 voters (optimising rules: 12 and 35)"
NT1 = ("non-trivial: the electorates have common winners and at least one of them has winners "
       "that are not common")
NT2 = "non-trivial: not every committee wins"
NT3 = "non-trivial: not every winner contained the candidate, or not every committee wins"
NT4 = "non-trivial: the candidate has approvals"
FACETS = [
    Facet("reinforcement", two_electorates(REINFORCEMENT, False, S), check_reinforcement, 4000,
          80000, f"two electorates with common winners elect exactly those together; {NT1}"),
    Facet("reinforcement-solver", two_electorates(REINFORCEMENT, True, SS), check_reinforcement,
          700, 12000, f"the same for ILP/CP algorithms; {NT1}"),
    Facet("continuity", with_factor(two_electorates(CONTINUITY, False, S, floats=False)), check_continuity, 4000,
          80000, f"a large number of copies of an electorate decides between its winners; {NT2}"),
    Facet("monotonicity", with_approval(base(MONOTONE, False, S)), check_monotone, 4000, 80000,
          f"one further approval for a winning candidate; {NT3}"),
    Facet("monotonicity-solver", with_approval(base(MONOTONE, True, SS)), check_monotone, 900,
          15000, f"the same for ILP/CP algorithms; {NT3}"),
    Facet("contraction", with_approval(base(CONTRACTION_ALL + CONTRACTION, False, S)),
          check_contraction, 4000, 80000, f"a losing candidate leaves; {NT4}"),
    Facet("contraction-solver", with_approval(base(CONTRACTION_ALL, True, SS)),
          check_contraction, 900, 15000, f"the same for ILP/CP algorithms; {NT4}"),
    Facet("large-continuity", with_factor(large_cases(CONTINUITY, ["unit", "int", "frac"], True)),
          bounded(check_continuity), 500, 12000, f"continuity, {LARGE}; {NT2}", minimise=True),
    Facet("large-monotonicity", with_approval(large_cases(MONOTONE, L)), bounded(check_monotone),
          500, 12000, f"monotonicity, {LARGE}; {NT3}", minimise=True),
    Facet("large-contraction", with_approval(large_cases(CONTRACTION_ALL + CONTRACTION, L)),
          bounded(check_contraction), 500, 12000, f"contraction, {LARGE}; {NT4}", minimise=True),
]
