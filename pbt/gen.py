"""Structured generators. All cases are plain JSON; construction instead of rejection."""

import random
from fractions import Fraction
from math import gcd, lcm

from hypothesis import strategies as st

INT_WEIGHTS = [1, 1, 2, 3, 4, 5, 7, 10]
FRAC_WEIGHTS = ["1/2", "1/3", "2/3", "3/2", "5/2", "1/4", "1/6", "5/3", "7/5", "1/7", "1", "2"]
BIG_WEIGHTS = [1, 13, 100, 997, 1000, 12345]


@st.composite
def ballots(draw, m, max_n, min_n=1, style=None, empty_ok=True, active=None):
    """A list of approval sets (sorted lists) over candidates 0..m-1."""
    if style is None:
        style = draw(
            st.sampled_from(["free", "free", "free", "pool", "pool", "party", "interval", "near",
                             "sparse", "dense", "rng", "rng", "rng", "rng"])
        )
    n = draw(st.integers(min_n, max_n))
    cands = list(range(m)) if active is None else list(active)
    ma = len(cands)
    full = (1 << ma) - 1

    def from_mask(mask):
        return [cands[i] for i in range(ma) if mask >> i & 1]

    if style == "free":
        masks = draw(st.lists(st.integers(0, full), min_size=n, max_size=n))
    elif style == "pool":
        pool = draw(st.lists(st.integers(0, full), min_size=1, max_size=3))
        idx = draw(st.lists(st.integers(0, len(pool) - 1), min_size=n, max_size=n))
        masks = [pool[i] for i in idx]
    elif style == "party":
        party = draw(st.lists(st.integers(0, 2), min_size=ma, max_size=ma))
        groups = [sum(1 << i for i in range(ma) if party[i] == g) for g in range(3)]
        idx = draw(st.lists(st.integers(0, 2), min_size=n, max_size=n))
        masks = [groups[i] for i in idx]
    elif style == "interval":
        masks = []
        for _ in range(n):
            lo = draw(st.integers(0, ma - 1))
            hi = draw(st.integers(lo, ma - 1))
            masks.append(sum(1 << i for i in range(lo, hi + 1)))
    elif style == "rng":  # evenly distributed; Hypothesis alone prefers repetitive values
        rng = random.Random(draw(st.integers(0, 2**32)))
        p = rng.choice([0.2, 0.35, 0.5, 0.5, 0.5, 0.7])
        masks = [sum(1 << i for i in range(ma) if rng.random() < p) for _ in range(n)]
    elif style == "near":
        base = draw(st.integers(0, full))
        masks = []
        for _ in range(n):
            flip = draw(st.integers(-1, ma - 1))
            masks.append(base ^ (1 << flip) if flip >= 0 else base)
    elif style == "sparse":
        masks = []
        for _ in range(n):
            members = draw(st.lists(st.integers(0, ma - 1), min_size=0, max_size=2))
            mask = 0
            for c in members:
                mask |= 1 << c
            masks.append(mask)
    else:  # dense: complements of sparse ballots
        masks = []
        for _ in range(n):
            members = draw(st.lists(st.integers(0, ma - 1), min_size=0, max_size=2))
            mask = full
            for c in members:
                mask &= ~(1 << c)
            masks.append(mask)
    if not empty_ok:
        masks = [mk if mk else 1 for mk in masks]
    return [from_mask(mk) for mk in masks]


@st.composite
def weights(draw, n, mode):
    if mode == "unit":
        return ["1"] * n
    if mode == "int":
        return [str(draw(st.sampled_from(INT_WEIGHTS))) for _ in range(n)]
    if mode == "small-int":
        return [str(draw(st.sampled_from([1, 1, 2, 3]))) for _ in range(n)]
    if mode == "big":
        return [str(draw(st.sampled_from(BIG_WEIGHTS))) for _ in range(n)]
    if mode == "frac":
        return [draw(st.sampled_from(FRAC_WEIGHTS)) for _ in range(n)]
    if mode == "balanced":  # not unit, but the total weight is the number of voters
        w = [Fraction(1)] * n
        for _ in range(draw(st.integers(1, 3))):
            if n >= 2:
                i = draw(st.integers(0, n - 1))
                j = draw(st.integers(0, n - 2))
                j += j >= i
                delta = draw(st.sampled_from([Fraction(1, 2), Fraction(1, 3), Fraction(1, 4)]))
                if w[j] > delta:
                    w[i] += delta
                    w[j] -= delta
        return [str(x) for x in w]
    if mode == "small":  # total weight below one
        return [draw(st.sampled_from(["1/10", "1/12", "1/20", "1/30"])) for _ in range(n)]
    raise ValueError(mode)


@st.composite
def instances(
    draw,
    max_m=6,
    max_n=6,
    min_m=1,
    min_n=1,
    modes=("unit", "unit", "int", "frac"),
    max_k=None,
    min_k=1,
    style=None,
    wide=False,
    empty_ok=True,
    wide_max_k=None,
):
    """{"m": candidates, "b": ballots, "w": weights, "k": committee size}.

    wide=True sometimes uses 9..12 candidates of which only a few are approved
    (two-digit candidate numbers; set iteration order differs from numeric order).
    """
    active = None
    if wide and draw(st.integers(0, 3)) == 0:
        m = draw(st.integers(9, 12))
        size = draw(st.integers(2, 5))
        active = sorted(draw(st.sets(st.integers(0, m - 1), min_size=size, max_size=size)))
    else:
        m = draw(st.integers(min_m, max_m))
    b = draw(ballots(m, max_n, min_n=min_n, style=style, active=active, empty_ok=empty_ok))
    mode = draw(st.sampled_from(list(modes)))
    w = draw(weights(len(b), mode))
    top = m if max_k is None else min(m, max_k)
    if active is not None and wide_max_k is not None:
        top = min(top, wide_max_k)
    if draw(st.integers(0, 3)) > 0:  # usually no more seats than approved candidates
        top = min(top, max(min_k, len(set().union(*map(set, b)))))
    k = draw(st.integers(min(min_k, top), top))
    return {"m": m, "b": b, "w": w, "k": k}


def to_weight(text):
    value = Fraction(text)
    return int(value) if value.denominator == 1 else value


def fracs(case):
    return [Fraction(x) for x in case["w"]]


def build(case, plain=True, cand_names=None):
    """Build the Profile of a case through the public API."""
    from abcvoting.preferences import Profile, Voter

    profile = Profile(case["m"], cand_names=cand_names) if cand_names else Profile(case["m"])
    for ballot, w in zip(case["b"], case["w"]):
        weight = to_weight(w)
        if plain and weight == 1:
            profile.add_voter(ballot)
        else:
            profile.add_voter(Voter(ballot, weight=weight))
    return profile


def unit(case):
    return all(Fraction(x) == 1 for x in case["w"])


def copies(case):
    """Number of unit-weight voters of the smallest proportional unit-weight profile."""
    w = fracs(case)
    den = lcm(*(x.denominator for x in w))
    ints = [int(x * den) for x in w]
    return sum(ints) // gcd(*ints)


def fmt(committees):
    return sorted(tuple(sorted(c)) for c in committees)


@st.composite
def lightweight(draw, max_m=5, max_copies=5, unit_only=False, **kw):
    """Instances with few copies of voters (leximax-Phragmen ILPs grow quickly)."""
    shape = draw(st.sampled_from([None] if unit_only else [
        None, None, None, ["2", "1"], ["1", "2"], ["3", "1"], ["2", "1", "1"], ["1", "2", "2"],
        ["3/2", "1/2"], ["1/2", "1/4", "1/4"], ["2", "2"], ["4"], ["1/3", "2/3", "1/3"],
    ]))
    n = draw(st.integers(1, max_copies)) if shape is None else len(shape)
    inst = draw(instances(max_m=max_m, max_n=n, min_n=n, modes=("unit",), **kw))
    if shape is not None:
        inst["w"] = shape
    return inst


@st.composite
def uniform(draw, m, n, k, modes=("unit",)):
    """Instances from a pseudo-random generator (m, n, k: inclusive ranges).

    Hypothesis prefers small and repetitive values; exact ties between structurally different
    candidates are more frequent among evenly distributed ballots. The case contains the full
    instance (not the seed); facets using it set minimise=True because Hypothesis cannot shrink
    through the seed.
    """
    rng = random.Random(draw(st.integers(0, 2**48)))
    return uniform_case(rng, m, n, k, modes)


def uniform_case(rng, m, n, k, modes=("unit",)):
    m = rng.randint(*m)
    n = rng.randint(*n)
    k = min(rng.randint(*k), m)
    style = rng.choice(["half", "half", "p", "sized", "sized", "types"])
    if style == "p":
        p = rng.choice([0.15, 0.25, 0.35, 0.65, 0.8])
    else:
        p = 0.5
    if style == "sized":
        top = rng.randint(1, m)
        b = [sorted(rng.sample(range(m), rng.randint(1, top))) for _ in range(n)]
    else:
        num = n if style != "types" else rng.randint(2, max(2, min(5, n)))
        b = [[c for c in range(m) if rng.random() < p] for _ in range(num)]
        if style == "types":
            b = [list(rng.choice(b)) for _ in range(n)]
    mode = rng.choice(list(modes))
    if mode == "int":
        w = [str(rng.choice(INT_WEIGHTS)) for _ in b]
    elif mode == "small-int":
        w = [str(rng.choice([1, 1, 2, 3])) for _ in b]
    elif mode == "frac":
        w = [rng.choice(FRAC_WEIGHTS) for _ in b]
    else:
        w = ["1"] * n
    return {"m": m, "b": b, "w": w, "k": k}


def large_file_case(rng, m, n, modes):
    """Instances for file formats: many candidates, many (partly equal) ballots, any weights."""
    case = uniform_case(rng, m, n, (1, m[1]), ("unit",))
    if rng.random() < 0.5:  # short ballots
        case["b"] = [sorted(rng.sample(b, min(len(b), rng.randint(0, 4)))) for b in case["b"]]
    mode = rng.choice(list(modes))
    num = len(case["b"])
    if mode == "wide":
        case["w"] = [str(rng.randint(1, 1000)) for _ in range(num)]
    elif mode != "unit":
        values = INT_WEIGHTS if mode == "int" else FRAC_WEIGHTS
        case["w"] = [str(rng.choice(values)) for _ in range(num)]
    return case
