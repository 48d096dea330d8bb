"""Shared by C18, C19, C20: cases for property checks and calling them."""

import random
from fractions import Fraction

from hypothesis import strategies as st

from pbt import axioms, gen
from pbt.core import require, sut
from pbt.gen import build

MODES = ("unit", "unit", "unit", "int", "small-int", "frac", "dyadic")


@st.composite
def cases(draw, size, props, quotas=True, modes=MODES, equal_size=False):
    m, n = size
    modes = draw(st.sampled_from(modes))
    case = draw(gen.instances(max_m=m, max_n=n, modes=("unit",) if modes == "dyadic" else (modes,),
                              min_n=n // 2 if n > 8 else draw(st.sampled_from([1, 3])),
                              min_m=draw(st.sampled_from([3, m - 2])) if n > 8 else 1,
                              min_k=draw(st.sampled_from([1, 2, 2, 3])),
                              wide=n <= 6 and m <= 6, wide_max_k=4))
    if modes == "dyadic":  # exact float weights
        case["w"] = [draw(st.sampled_from(["1/2", "1", "3/2", "1/4", "2"])) for _ in case["b"]]
        case["float"] = True
    m = case["m"]
    approved = sorted({c for b in case["b"] for c in b}) or [0]
    style = draw(st.sampled_from(["any", "any", "approved", "winner", "winner"]))
    k = case["k"]
    if style == "approved":
        case["com"] = sorted(draw(st.sets(st.sampled_from(approved), min_size=1, max_size=k)))
    elif style == "winner":  # likely to satisfy the axioms
        score = [sum(Fraction(w) for b, w in zip(case["b"], case["w"]) if c in b)
                 for c in range(m)]
        left = [Fraction(w) for w in case["w"]]
        com = []
        for _ in range(k):  # sequential PAV-like choice
            c = max((c for c in range(m) if c not in com), key=lambda c: sum(
                (w / (1 + len(set(b) & set(com))) for b, w in zip(case["b"], left) if c in b),
                Fraction(0)))
            com.append(c)
        del score
        case["com"] = sorted(com)
    else:
        case["com"] = sorted(draw(st.sets(st.integers(0, m - 1), min_size=1, max_size=k)))
    case["prop"] = draw(st.sampled_from(list(props)))
    case["quota"] = None
    if quotas and case["prop"] in axioms.WITH_QUOTA:
        total = sum(Fraction(w) for w in case["w"])
        case["quota"] = draw(st.sampled_from([
            None, None, None, str(total / len(case["com"])), str(total / (len(case["com"]) + 1)),
            "1", "2", "3", "3/2", "4/3", str(total), str(total + 1), "1/2", str(total / 2),
            str(total / (k + 1) + Fraction(1, 7)),
        ]))
    return case


def make(case):
    if not case.get("float"):
        return build(case)
    from abcvoting.preferences import Profile, Voter

    profile = Profile(case["m"])
    for b, w in zip(case["b"], case["w"]):
        profile.add_voter(Voter(b, weight=float(Fraction(w))))
    return profile


def run(prop, profile, com, quota=None, algorithm=None):
    from abcvoting import properties

    kwargs = {}
    if quota is not None:
        kwargs["quota"] = gen.to_weight(quota)
    if algorithm is not None:
        kwargs["algorithm"] = algorithm
    return sut(f"check({prop!r}, committee={com}, {kwargs})", properties.check, prop, profile, com,
               **kwargs)


DIRECT = {
    "jr": "check_JR", "pjr": "check_PJR", "ejr": "check_EJR", "ejr+": "check_EJR_plus",
    "fjr": "check_FJR", "core": "check_core", "pareto": "check_pareto_optimality",
    "priceability": "check_priceability", "stable-priceability": "check_stable_priceability",
}


def check_exact(case, ctx):
    """All algorithms of a check agree with the definition."""
    from abcvoting import properties

    prop, com, quota = case["prop"], case["com"], case["quota"]
    want = axioms.REFERENCE[prop](axioms.Setting(case, com, quota))
    profile = make(case)
    for algo in axioms.ALGORITHMS[prop]:
        got = run(prop, profile, com, quota, algo)
        require(got is want or got == want and isinstance(got, bool),
                lambda: f"check({prop!r}, {com}, quota={quota}, algorithm={algo}) returns {got}, "
                        f"but the definition says {want}")
    direct = getattr(properties, DIRECT[prop])
    kwargs = {} if quota is None else {"quota": gen.to_weight(quota)}
    got = sut(DIRECT[prop], direct, profile, com, **kwargs)
    require(got == want, lambda: f"{DIRECT[prop]}({com}, {kwargs}) returns {got}, expected {want}")
    require([sorted(v.approved) for v in profile] == [sorted(b) for b in case["b"]],
            "the profile was changed")
    ctx.label(f"{prop}: {want}")
    ctx.label("default quota" if quota is None else "custom quota")
    ctx.label("unit weights" if gen.unit(case) else "weighted")
    # the committee matters: there is another committee of this size with the opposite answer
    ctx.nontrivial(len(com) < case["m"] and any(case["b"]))


@st.composite
def large_cases(draw, props, m, n, k):
    """Many voters; committees that are good for most of them."""
    rng = random.Random(draw(st.integers(0, 2**48)))
    prop = draw(st.sampled_from(props))
    case = gen.uniform_case(rng, m, n, k, ("unit",))
    if rng.random() < 0.7:  # parties with noise
        mm = case["m"]
        num = rng.randint(1, 4)
        share = [rng.random() ** 2 + 0.05 for _ in range(num)]
        party = [[c for c in range(mm) if rng.random() < rng.choice([0.2, 0.4, 0.6])]
                 for _ in range(num)]
        noise = rng.choice([0, 0.05, 0.15])
        case["b"] = [sorted({c for c in p if rng.random() > 2 * noise}
                            | {c for c in range(mm) if rng.random() < noise})
                     for p in rng.choices(party, share, k=len(case["b"]))]
    mode = rng.choice(["unit", "unit", "int", "frac"])
    values = {"unit": ["1"], "int": ["1", "2", "3", "7"], "frac": ["1", "1/2", "2/3", "5/4"]}[mode]
    case["w"] = [rng.choice(values) for _ in case["b"]]
    # a committee that a Thiele-like sequential process with a random exponent chooses
    w = [Fraction(x) for x in case["w"]]
    ballots = [set(b) for b in case["b"]]
    power = rng.choice([0, 1, 1, 1, 2])
    com = set()
    for _ in range(case["k"]):
        score = {c: sum(float(x) / (1 + len(b & com)) ** power for b, x in zip(ballots, w)
                        if c in b) for c in range(case["m"]) if c not in com}
        com.add(max(score, key=score.get))
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
        com.remove(rng.choice(sorted(com)))
        com.add(rng.choice([c for c in range(case["m"]) if c not in com]))
    case = dict(case, com=sorted(com), prop=prop, quota=None)
    if prop in axioms.WITH_QUOTA and rng.random() < 0.6:
        total = sum(w)
        limit = axioms.threshold(axioms.Setting(case, case["com"]), prop)
        quota = rng.choice([limit, limit, limit + Fraction(1, 100), limit + Fraction(1, 1000),
                            limit - Fraction(1, 100), total / (len(com) + 1),
                            total / (len(com) + 1) + Fraction(1, 100)])
        if quota >= total / 20:
            case["quota"] = str(quota)
    return case


def check_large(case, ctx):
    prop, com, quota = case["prop"], case["com"], case["quota"]
    s = axioms.Setting(case, com, quota)
    limit = None
    if prop == "pareto":
        want = axioms.pareto(s)
    else:
        limit = axioms.threshold(s, prop)
        want = s.q > limit
    profile = build(case)
    for algo in axioms.ALGORITHMS[prop]:
        got = run(prop, profile, com, quota, algo)
        require(got == want, lambda: f"check({prop!r}, {com}, quota={quota}, algorithm={algo}) "
                                     f"returns {got}, but the definition says {want}")
    ctx.label(f"{prop}: {want}")
    ctx.label("default quota" if quota is None else "custom quota")
    if limit is not None and abs(s.q - limit) <= Fraction(1, 100):
        ctx.label("quota next to the threshold")
    ctx.nontrivial(len(com) < case["m"])
