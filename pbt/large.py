"""Profiles of realistic size, compared with the exact reference models.

Where a rule has more tied outcomes than LIMIT, only the outcome with resolute=True is compared
(if the model determines it); otherwise the case counts as trivial.
"""

import random

from hypothesis import strategies as st

from pbt import gen, oracle, ref, rules, savfloat
from pbt.core import Facet, require
from pbt.exact import SOLVER
from pbt.gen import build, fmt

LIMIT = 150


def large_case(rng, m, n, k, modes):
    case = gen.uniform_case(rng, m, n, k, ("unit",))
    if rng.random() < 0.3:  # parties with noise: few approvals per voter, skewed popularity
        mm = case["m"]
        pop = [rng.random() ** 2 for _ in range(mm)]
        case["b"] = [[c for c in range(mm) if rng.random() < pop[c]] for _ in case["b"]]
    mode = rng.choice(list(modes))
    num = len(case["b"])
    if mode == "int":
        w = [str(rng.choice(gen.INT_WEIGHTS)) for _ in range(num)]
    elif mode == "wide":  # ties are rare
        w = [str(rng.randint(1, 1000)) for _ in range(num)]
    elif mode == "huge":
        f = rng.choice([1000, 100000])
        w = [str(rng.choice(gen.INT_WEIGHTS) * f) for _ in range(num)]
    elif mode == "frac":
        w = [rng.choice(gen.FRAC_WEIGHTS) for _ in range(num)]
    else:
        w = ["1"] * num
    return dict(case, w=w)


@st.composite
def cases(draw, choices, m, n, k, modes):
    rule_id, algo = draw(st.sampled_from(choices))
    if rule_id in rules.UNIT_ONLY:
        modes = ("unit",)
    elif (rule_id, algo) == ("cc", "ortools-cp"):
        modes = [x for x in modes if x != "frac"]
    rng = random.Random(draw(st.integers(0, 2**48)))
    return dict(large_case(rng, m, n, k, modes), rule=rule_id, algo=algo)


def expected(rule_id, case):
    """(all winners or None, possible resolute outcomes or None)"""
    ref.LIMIT = LIMIT
    try:
        if rule_id == "greedy-monroe":
            win = ref.greedy_monroe_types(ref.Inst(case))
            return win, win
        return oracle.expected(rule_id, case)
    except ref.TooMany as exc:
        if exc.first is None:
            return None, None
        first = exc.first if isinstance(exc.first, set) else {exc.first}
        return None, first
    finally:
        ref.LIMIT = None


def check_large(case, ctx):
    rule_id, algo, k = case["rule"], case["algo"], case["k"]
    want, want_one = expected(rule_id, case)
    for resolute in rules.rule(rule_id).resolute_values:
        known = want_one if resolute else want
        if known is None or (algo in SOLVER and not resolute and len(known) > 12):
            continue
        got = fmt(rules.compute(rule_id, build(case), k, algorithm=algo, resolute=resolute))
        what = f"{rule_id}/{algo}/resolute={resolute}"
        require(len(got) == len(set(got)), lambda: f"{what}: duplicates in {got}")
        if resolute:
            require(len(got) == 1, lambda: f"{what}: {len(got)} committees")
            require(got[0] in known, lambda: f"{what}: got {got[0]}, expected "
                                             f"{rules.show(known)}")
        elif rule_id == "sav" and set(got) != known and savfloat.explained(case, got):
            ctx.known_hits.append("sav-float")
            ctx.label("known finding: tie missed by float sums (sav)")
        else:
            rules.compare(what, set(got), known)
    ctx.label(f"{rule_id}/{algo}")
    if want is None:
        ctx.label("many ties: only resolute" if want_one else "many ties: not compared")
    ctx.nontrivial(want_one is not None and len(want_one) < rules.binom(case["m"], k))


def large_facet(name, choices, quick, thorough, m=(8, 24), n=(15, 80), k=(2, 10),
                modes=("unit", "int", "wide", "wide", "huge", "frac"), min_shard=20):
    return Facet(
        name, cases(choices, m, n, k, modes), check_large, quick, thorough,
        f"pseudo-random profiles with {m[0]}-{m[1]} candidates, {n[0]}-{n[1]} voters, k in "
        f"{k[0]}-{k[1]}, weights up to 1000 or multiples of 100000; rules/algorithms {[f'{r}/{a}' for r, a in choices]}; "
        f"compared with the exact reference (with more than {LIMIT} tied outcomes only resolute); "
        "non-trivial: compared, and not every committee of size k wins",
        min_shard=min_shard, minimise=True,
    )


# Rules whose computation is polynomial (up to ties), and optimisation rules.
SEQUENTIAL = ["av", "sav", "seqpav", "seqslav", "seqcc", "seqgeom2", "seqgeom1.5", "revseqpav",
              "revseqcc", "revseqslav", "revseqgeom2", "seqphragmen", "equal-shares",
              "equal-shares-with-av-completion", "equal-shares-with-increment-completion",
              rules.NO_COMPLETION, "phragmen-enestroem", "consensus-rule", "eph"]
OPTIMISING = ["pav", "slav", "cc", "lexcc", "geom2", "geom1.5", "minimaxav", "lexminimaxav"]
SIZES = {False: ((8, 24), (15, 80), (2, 10)), True: ((9, 12), (15, 35), (3, 5))}
MODES = ("unit", "int", "wide", "wide", "huge", "frac")


@st.composite
def any_cases(draw, choices, modes=MODES, sizes=SIZES):
    """Large cases for given (rule, algorithm) pairs of both kinds, with the size each can bear."""
    rule_id, algo = draw(st.sampled_from(choices))
    if rule_id in rules.UNIT_ONLY:
        modes = ("unit",)
    elif (rule_id, algo) == ("cc", "ortools-cp"):
        modes = [x for x in modes if x != "frac"]
    rng = random.Random(draw(st.integers(0, 2**48)))
    case = large_case(rng, *sizes[rule_id in OPTIMISING], modes)
    return dict(case, rule=rule_id, algo=algo)


def number_of_winners(case):
    """Number of winning committees by the model, None if the rule has too many (orders of) ties.

    Only used to avoid computations that take too long.
    """
    win = expected(case["rule"], case)[0]
    if win is None or len(win) > (12 if case["rule"] in OPTIMISING else LIMIT):
        return None
    return len(win)
