"""C34: related rules agree where theory demands it; neutral ballots and candidates do not matter."""

from fractions import Fraction

from hypothesis import strategies as st

from pbt import gen, rules
from pbt.core import Facet, require
from pbt.exact import SOLVER, modes_for
from pbt.gen import build, fmt

RULE = ("Relations between the results of different rules, or of one rule on a profile and on a "
        "profile that is changed in a neutral way. No reference model is needed, so that the "
        "profiles are larger than in C04-C12.")
TECHNIQUE = "property-based testing (Hypothesis): metamorphic relations"
ASSUMPTIONS = ["mip-gurobi cannot start in this sandbox (no licence for Python-MIP) and is skipped",
               "leximax-Phragmen only with at most 5 (copies of) voters"]

THIELE = ["pav", "slav", "cc", "lexcc", "geom2", "geom1.5", "geom3"]
SEQ = ["seqpav", "seqslav", "seqcc", "seqgeom2", "seqgeom1.5"]
REV = ["revseqpav", "revseqslav", "revseqcc", "revseqgeom2"]
MES = ["equal-shares", "equal-shares-with-av-completion", "equal-shares-with-increment-completion"]
PHRAG = ["seqphragmen", "minimaxphragmen", "leximaxphragmen", "maximin-support"]
ONE_SEAT = ["av"] + THIELE + SEQ + MES + PHRAG + ["monroe", "greedy-monroe",
                                                        "phragmen-enestroem", "consensus-rule"]
REFINES = {"lexcc": "cc", "lexminimaxav": "minimaxav", "leximaxphragmen": "minimaxphragmen"}
EMPTY_NEUTRAL = ["av", "sav", "eph", "lexminimaxav"] + THIELE + SEQ + REV + PHRAG
FULL_NEUTRAL = ["av", "lexminimaxav"] + THIELE + SEQ + REV
UNANIMOUS = ["av", "pav", "slav", "geom2", "geom1.5", "geom3", "seqpav", "seqslav", "seqgeom2",
             "seqgeom1.5", "revseqpav", "revseqslav", "revseqgeom2", "seqphragmen",
             "maximin-support", "phragmen-enestroem"] + MES + [rules.NO_COMPLETION]
ALL = [r for r in rules.all_rule_ids() if r not in ("rsd", "greedy-monroe")]


def winners(rule_id, case, algo, k=None):
    resolute = rules.rule(rule_id).resolute_values
    return set(fmt(rules.compute(rule_id, build(case), case["k"] if k is None else k,
                                 algorithm=algo, resolute=False not in resolute)))


def is_resolute_only(rule_id):
    return False not in rules.rule(rule_id).resolute_values


@st.composite
def cases(draw, ids, solver, size, wide=True):
    choices = [(r, a) for r in ids for a in rules.algorithms(r) if (a in SOLVER) == solver]
    rule_id, algo = draw(st.sampled_from(choices))
    modes = modes_for(rule_id, algo)
    if rule_id == "leximaxphragmen":
        case = draw(gen.lightweight(max_m=4, max_copies=4))
    elif draw(st.booleans()):
        m, n, k = size
        case = draw(gen.uniform((2, m), (2, n), (1, k), [x for x in modes if x != "balanced"]))
    else:
        m, n, k = size
        case = draw(gen.instances(max_m=m, max_n=n, max_k=k, modes=modes, wide=wide,
                                  wide_max_k=2 if solver else 3))
    return dict(case, rule=rule_id, algo=algo, pos=draw(st.integers(0, 50)),
                num=draw(st.integers(1, 3)))


def check_one_seat(case, ctx):
    case = dict(case, k=1)
    score = [sum((Fraction(w) for b, w in zip(case["b"], case["w"]) if c in b), Fraction(0))
             for c in range(case["m"])]
    want = {(c,) for c in range(case["m"]) if score[c] == max(score)}
    got = winners(case["rule"], case, case["algo"])
    what = f"{case['rule']}/{case['algo']} with one seat"
    if is_resolute_only(case["rule"]):
        require(got <= want, lambda: f"{what}: {rules.show(got)}, expected one of "
                                     f"{rules.show(want)}")
    else:
        rules.compare(what, got, want)
    ctx.label(case["rule"])
    ctx.nontrivial(len(want) < case["m"])


def check_all_seats(case, ctx):
    case = dict(case, k=case["m"])
    got = winners(case["rule"], case, case["algo"])
    rules.compare(f"{case['rule']}/{case['algo']} with k=m", got, {tuple(range(case["m"]))})
    ctx.label(case["rule"])
    ctx.nontrivial(case["m"] > 1)


def check_refinement(case, ctx):
    rule_id, coarse = case["rule"], REFINES[case["rule"]]
    fine = winners(rule_id, case, case["algo"])
    for algo in rules.algos_for(coarse, case):
        base = winners(coarse, case, algo)
        require(fine <= base, lambda: f"{rule_id}: {rules.show(fine - base)} does not win under "
                                      f"{coarse}/{algo}: {rules.show(base)}")
    ctx.label(rule_id)
    ctx.nontrivial(len(fine) < rules.binom(case["m"], case["k"]))


def check_last_removal(case, ctx):
    """One candidate has to go: reverse sequential rules are optimal."""
    if case["m"] < 2:
        return
    case = dict(case, k=case["m"] - 1)
    got = winners(case["rule"], case, case["algo"])
    base = case["rule"][6:]
    for algo in ("brute-force", "branch-and-bound"):
        rules.compare(f"{case['rule']} (against {base}/{algo}) with k=m-1",
                      got, winners(base, case, algo))
    ctx.label(case["rule"])
    ctx.nontrivial(len(got) < case["m"])


@st.composite
def same_size(draw):
    m = draw(st.integers(2, 14))
    s = draw(st.integers(1, m))
    n = draw(st.integers(1, 30))
    b = [sorted(draw(st.permutations(range(m)))[:s]) for _ in range(n)]
    return {"m": m, "b": b, "w": ["1"] * n, "k": draw(st.integers(1, min(m, 6)))}


def check_same_size(case, ctx):
    av = winners("av", case, "standard")
    rules.compare("SAV against AV on ballots of the same size", winners("sav", case, "standard"), av)
    ctx.nontrivial(len(av) < rules.binom(case["m"], case["k"]))


def check_unapproved(case, ctx):
    """Candidates without approvals do not matter for the committees of other candidates."""
    rule_id, algo, m = case["rule"], case["algo"], case["m"]
    pos = case["pos"] % (m + 1)
    num = case["num"]
    new = {c: c if c < pos else c + num for c in range(m)}
    more = dict(case, m=m + num, b=[[new[c] for c in b] for b in case["b"]])
    base = {tuple(new[c] for c in com) for com in winners(rule_id, case, algo)}
    got = winners(rule_id, more, algo)
    old = set(new.values())
    got_old = {com for com in got if set(com) <= old}
    what = f"{rule_id}/{algo}: {num} unapproved candidates inserted at {pos}"
    if is_resolute_only(rule_id):
        approved = set().union(*map(set, case["b"]))
        if len(approved) >= case["k"] and rule_id == "equal-shares-with-increment-completion":
            rules.compare(what, got, base)
    else:
        rules.compare(what, got_old, base)
    ctx.label(rule_id)
    ctx.nontrivial(len(base) < rules.binom(m, case["k"]))


def check_neutral_ballot(case, ctx, full):
    rule_id, algo = case["rule"], case["algo"]
    base = winners(rule_id, case, algo)
    pos = case["pos"] % (len(case["b"]) + 1)
    ballot = list(range(case["m"])) if full else []
    w = ["1"] if gen.unit(case) else [["1", "2", "5"][case["num"] - 1]]
    more = dict(case, b=case["b"][:pos] + [ballot] * case["num"] + case["b"][pos:],
                w=case["w"][:pos] + w * case["num"] + case["w"][pos:])
    if not rules.applicable(rule_id, algo, more):
        return
    rules.compare(f"{rule_id}/{algo} with {case['num']} additional {'full' if full else 'empty'} "
                  f"ballots", winners(rule_id, more, algo), base)
    ctx.label(rule_id)
    ctx.nontrivial(len(base) < rules.binom(case["m"], case["k"]))


def check_empty(case, ctx):
    check_neutral_ballot(case, ctx, False)


def check_full(case, ctx):
    check_neutral_ballot(case, ctx, True)


def check_unanimous(case, ctx):
    """The only candidate approved by everyone is in every winning committee."""
    c = case["pos"] % case["m"]
    b = [sorted(set(x) | {c}) for x in case["b"]]
    common = set.intersection(*map(set, b))
    for i, x in enumerate(sorted(common - {c})):  # make c the only one
        b[i % len(b)] = [y for y in b[i % len(b)] if y != x]
    case = dict(case, b=b)
    got = winners(case["rule"], case, case["algo"])
    bad = {com for com in got if c not in com}
    require(not bad, lambda: f"{case['rule']}/{case['algo']}: {rules.show(bad)} wins without "
                             f"candidate {c}, the only one approved by all voters")
    ctx.label(case["rule"])
    ctx.nontrivial(case["m"] > case["k"])


NT = "non-trivial: not every committee of size k wins"
BIG, SOL = (11, 30, 4), (6, 9, 3)
FACETS = [
    Facet("one-seat", cases(ONE_SEAT, False, (16, 40, 1)), check_one_seat, 4000, 80000,
          "one seat: the candidates with most approvals (by weight); non-trivial: not all of them"),
    Facet("one-seat-solver", cases(ONE_SEAT, True, (8, 10, 1)), check_one_seat, 800, 15000,
          "the same for ILP/CP algorithms"),
    Facet("all-seats", cases([r for r in ALL if r != rules.NO_COMPLETION],
                             False, (6, 20, 6), False),
          check_all_seats, 1500, 20000, "k=m: everyone; non-trivial: more than one candidate"),
    Facet("all-seats-solver", cases([r for r in ALL if r != "leximaxphragmen"], True, (5, 9, 5), False),
          check_all_seats, 400, 6000, "the same for ILP/CP algorithms"),
    Facet("refinement", cases(list(REFINES), False, (8, 14, 4)), check_refinement, 600, 10000,
          f"lex-CC within CC etc. for all algorithms; {NT}"),
    Facet("refinement-solver", cases(list(REFINES), True, SOL), check_refinement, 400, 8000,
          f"the same for ILP algorithms; {NT}"),
    Facet("last-removal", cases(REV, False, (10, 25, 9)), check_last_removal, 2000, 40000,
          "reverse sequential rules for k=m-1; non-trivial: not every candidate may be removed"),
    Facet("same-size", same_size(), check_same_size, 2500, 50000,
          f"SAV and AV on ballots of one size; {NT}"),
    Facet("unapproved", cases(ALL, False, (9, 20, 4)), check_unapproved, 4000, 80000,
          f"unapproved candidates inserted anywhere; {NT}"),
    Facet("unapproved-solver", cases(ALL, True, SOL), check_unapproved, 800, 15000,
          f"the same for ILP/CP algorithms; {NT}"),
    Facet("empty-ballots", cases(EMPTY_NEUTRAL, False, BIG), check_empty, 3000, 60000,
          f"empty ballots inserted anywhere; {NT}"),
    Facet("empty-ballots-solver", cases(EMPTY_NEUTRAL, True, SOL), check_empty, 600, 12000,
          f"the same for ILP/CP algorithms; {NT}"),
    Facet("full-ballots", cases(FULL_NEUTRAL, False, BIG), check_full, 3000, 60000,
          f"ballots approving everyone inserted anywhere; {NT}"),
    Facet("full-ballots-solver", cases(FULL_NEUTRAL, True, SOL), check_full, 600, 12000,
          f"the same for ILP/CP algorithms; {NT}"),
    Facet("unanimous", cases(UNANIMOUS, False, BIG), check_unanimous, 2500, 50000,
          "exactly one candidate approved by everyone; non-trivial: k<m"),
    Facet("unanimous-solver", cases(UNANIMOUS, True, SOL), check_unanimous, 400, 8000,
          "the same for ILP/CP algorithms"),
]
