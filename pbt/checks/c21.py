"""C21: score functions agree with their definitions."""

from fractions import Fraction

from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Facet, HarnessError, expect_raises, require, sut
from pbt.gen import build

RULE = ("Scores of arbitrary committees (any size, any container) compared with the definitions "
        "evaluated exactly; marginal scores compared with differences of total scores.")
TECHNIQUE = "property-based testing (Hypothesis): reference model, metamorphic relation (marginals)"

IDS = ["pav", "slav", "cc", "av", "geom2", "geom1.5", "geom10", "geom3/2", "geom100", "geom1.125",
       "geom12345", "geom355/113", "atleast1", "atleast2", "atleast3"]


def scorefct(sid, i):
    if i == 0:
        return Fraction(0)
    if sid == "pav":
        return Fraction(1, i)
    if sid == "slav":
        return Fraction(1, 2 * i - 1)
    if sid == "av":
        return Fraction(1)
    if sid == "cc":
        return Fraction(int(i == 1))
    if sid.startswith("atleast"):
        return Fraction(int(i == int(sid[7:])))
    return 1 / Fraction(sid[4:]) ** (i - 1)


@st.composite
def cases(draw, size, modes=("unit", "int", "frac", "big", "small")):
    m, n = size
    case = draw(gen.instances(max_m=m, max_n=n, modes=modes, wide=m < 9,
                              min_n=n // 2 if n > 15 else 1))
    m = case["m"]
    if draw(st.booleans()):
        case["com"] = sorted(draw(st.sets(st.integers(0, m - 1), max_size=m)))
    else:
        mask = draw(st.integers(1, 2**m - 1))
        case["com"] = [c for c in range(m) if mask >> c & 1]
    case["container"] = draw(st.sampled_from(["list", "set", "tuple", "CandidateSet", "rev"]))
    case["score"] = draw(st.sampled_from(IDS))
    return case


def container(case):
    from abcvoting.misc import CandidateSet

    kind, com = case["container"], case["com"]
    if kind == "rev":
        return list(reversed(com))
    return {"list": list, "set": set, "tuple": tuple, "CandidateSet": CandidateSet}[kind](com)


def exact(x):
    return Fraction(int(x.numerator), int(x.denominator))


def reference(case, sid, com):
    com = set(com)
    return sum((Fraction(w) * sum((scorefct(sid, i + 1) for i in range(len(com & set(b)))),
                                  Fraction(0)) for b, w in zip(case["b"], case["w"])), Fraction(0))


def check_thiele(case, ctx):
    from abcvoting import scores

    profile, sid, com = build(case), case["score"], case["com"]
    given = container(case)
    got = exact(sut(f"thiele_score({sid})", scores.thiele_score, sid, profile, given))
    want = reference(case, sid, com)
    require(got == want, lambda: f"thiele_score({sid}, {com}) is {got}, expected {want}")
    fct = sut("get_marginal_scorefct", scores.get_marginal_scorefct, sid, len(com))
    for i in range(len(com) + 2):
        require(exact(fct(i)) == scorefct(sid, i),
                lambda: f"marginal score {sid}({i}) is {fct(i)}, expected {scorefct(sid, i)}")
        total = exact(sut("cumulative_score", scores.cumulative_score, fct, i))
        expected = sum((scorefct(sid, j + 1) for j in range(i)), Fraction(0))
        require(total == expected,
                lambda: f"cumulative_score({sid}, {i}) is {total}, expected {expected}")
    add = sut("marginal_thiele_scores_add", scores.marginal_thiele_scores_add, fct, profile, given)
    rem = sut("marginal_thiele_scores_remove", scores.marginal_thiele_scores_remove, fct, profile,
              given)
    require(len(add) == case["m"] and len(rem) == case["m"], "one marginal score per candidate")
    for c in range(case["m"]):
        if c not in com:
            diff = reference(case, sid, com + [c]) - want
            require(exact(add[c]) == diff, lambda: f"adding {c} to {com} ({sid}): marginal score "
                                                   f"{add[c]}, expected {diff}")
        else:
            diff = want - reference(case, sid, [x for x in com if x != c])
            require(exact(rem[c]) == diff, lambda: f"removing {c} from {com} ({sid}): marginal "
                                                   f"score {rem[c]}, expected {diff}")
    # members are never chosen for adding, others never for removing
    outside = [c for c in range(case["m"]) if c not in com]
    require(all(add[c] < add[d] for c in com for d in outside), "members may be added again")
    require(all(rem[c] < rem[d] for c in com for d in outside), "non-members may be removed")
    require(list(given) == list(container(case)), "the committee was changed")
    ctx.label(sid)
    ctx.nontrivial(want > 0 and len(com) < case["m"])


@st.composite
def monroe_large(draw):
    """Few ballots, many voters: two-digit candidates, voters and district sizes."""
    m = draw(st.integers(4, 25))
    ballot = st.lists(st.integers(0, m - 1), max_size=6, unique=True).map(sorted)
    types = draw(st.lists(ballot, min_size=1, max_size=6))
    idx = draw(st.lists(st.tuples(st.integers(0, len(types) - 1), st.integers(1, 20)), min_size=1,
                        max_size=6))
    b = [types[i] for i, num in idx for _ in range(num)]
    approved = sorted(set().union(*map(set, b)))
    com = set(draw(st.lists(st.sampled_from(approved), max_size=6))) if approved else set()
    com |= set(draw(st.lists(st.integers(0, m - 1), min_size=1, max_size=2)))
    b = draw(st.permutations(b)) if draw(st.booleans()) else b
    return {"m": m, "b": b, "w": ["1"] * len(b), "k": len(com), "com": sorted(com),
            "container": draw(st.sampled_from(["list", "set", "tuple", "CandidateSet", "rev"]))}


@st.composite
def monroe_tight(draw):
    """(Nearly) every committee member has a full district of its own supporters."""
    m = draw(st.sampled_from([3, 5, 12, 13, 23, 25]))
    com = sorted(draw(st.sets(st.integers(0, m - 1), min_size=1, max_size=4)))
    if m > 10 and draw(st.booleans()):  # numbers that are prefixes of each other
        c = draw(st.integers(0, m - 11))
        com = sorted(set(com[:2]) | {c, c + 10} | ({1} if draw(st.booleans()) else set()))
    size = draw(st.integers(1, 15))
    b = []
    for c in com:
        extra = draw(st.lists(st.integers(0, m - 1), max_size=2))
        b += [sorted({c, *extra})] * draw(st.integers(1, size)) + [[c]] * size
        b = b[:size * (com.index(c) + 1)]
    b += draw(st.lists(st.lists(st.integers(0, m - 1), max_size=3, unique=True).map(sorted),
                       max_size=draw(st.sampled_from([0, 0, 2]))))
    return {"m": m, "b": b, "w": ["1"] * len(b), "k": len(com), "com": com,
            "container": draw(st.sampled_from(["list", "set", "tuple", "CandidateSet", "rev"]))}


def check_monroe(case, ctx):
    from abcvoting import scores

    profile, com = build(case), case["com"]
    if not com:
        return
    given = container(case)
    inst = ref.Inst(case)
    want = ref.monroe_score_flow(inst, com)
    if len(case["b"]) <= 10:
        if ref.monroe_score(inst, com) != want:
            raise HarnessError("the two reference models of Monroe scores disagree")
    for name in ("monroescore", "monroescore_flowbased"):
        got = sut(name, getattr(scores, name), profile, given)
        require(got == want, lambda: f"{name}({com}) is {got}, expected {want}")
    if len(case["b"]) % len(com) == 0:
        got = sut("monroescore_matching", scores.monroescore_matching, profile, given)
        require(got == want, lambda: f"monroescore_matching({com}) is {got}, expected {want}")
    else:
        expect_raises(f"monroescore_matching with {len(com)} districts and {len(case['b'])} voters",
                      ValueError, scores.monroescore_matching, profile, given)
    ctx.label("divides" if len(case["b"]) % len(com) == 0 else "does not divide")
    ctx.nontrivial(0 < want < len(case["b"]) or (len(com) > 1 and want > 0))


def check_hamming(case, ctx):
    from abcvoting import scores

    profile, com = build(case), set(case["com"])
    given = container(case)
    dist = [len(com - set(b)) + len(set(b) - com) for b in case["b"]]
    got = sut("minimaxav_score", scores.minimaxav_score, profile, given)
    require(got == max(dist), lambda: f"minimaxav_score({com}) is {got}, expected {max(dist)}")
    for bound in range(-1, case["m"] + 2):
        fct = scores.num_voters_with_upper_bounded_hamming_distance
        got = sut("num_voters_with_upper_bounded_hamming_distance", fct, bound, profile, given)
        want = sum(1 for d in dist if d <= bound)
        require(got == want, lambda: f"voters with distance <= {bound} to {com}: {got}, "
                                     f"expected {want}")
    ctx.nontrivial(len(set(dist)) > 1)


@st.composite
def unknown(draw):
    return {"id": draw(st.one_of(st.sampled_from(["", "PAV", "pav ", "pav2", "xyz", "geo", "seqpav",
                                                  "atlea", "sav", "monroe", "least2"]),
                                 st.text("pavslc", min_size=1, max_size=4)))}


def check_unknown(case, ctx):
    from abcvoting import scores

    if case["id"] in ("pav", "slav", "cc", "av"):
        return
    expect_raises(f"score function {case['id']!r}", scores.UnknownScoreFunctionError,
                  scores.get_marginal_scorefct, case["id"], 3)
    expect_raises(f"score function {case['id']!r}", ValueError,
                  scores.thiele_score, case["id"], build({"m": 2, "b": [[0]], "w": ["1"]}), [0])
    ctx.nontrivial()


NT = "non-trivial: positive score and at least one non-member"
FACETS = [
    Facet("thiele", cases((7, 7)), check_thiele, 8000, 200000,
          f"up to 7 (sometimes 12) candidates, 7 voters, all weight types; {NT}"),
    Facet("thiele-larger", cases((20, 60)), check_thiele, 1000, 20000,
          f"up to 20 candidates and 60 voters; {NT}"),
    Facet("monroe", cases((6, 10), ("unit",)), check_monroe, 3000, 50000,
          "both algorithms and the dispatching function; non-trivial: some but not all voters "
          "are represented, or more than one district"),
    Facet("monroe-large", monroe_large(), check_monroe, 2500, 50000,
          "up to 120 voters with few different ballots, up to 25 candidates; non-trivial: some but "
          "not all voters are represented"),
    Facet("monroe-tight", monroe_tight(), check_monroe, 1500, 30000,
          "up to 4 districts with up to 15 voters, nearly all of them represented; two-digit "
          "candidates; non-trivial: more than one district"),
    Facet("hamming", cases((9, 10), ("unit",)), check_hamming, 5000, 100000,
          "non-trivial: at least two different distances"),
    Facet("unknown", unknown(), check_unknown, 300, 2000, "unknown score functions"),
]
