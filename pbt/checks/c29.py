"""C29: structured generators keep their structural promise."""

import random
from fractions import Fraction
from math import isqrt, sqrt

import numpy as np
from hypothesis import strategies as st

from pbt.checks.c28 import DISTS, ballots, check_profile, function, points, real, seeded, split
from pbt.core import Facet, expect_raises, require, sut

RULE = ("Ballots recomputed from the returned or given points, extreme parameters with a determined "
        "outcome, support of point distributions, and frequencies of large samples (7 sigma).")
TECHNIQUE = ("property-based testing (Hypothesis): independent recomputation from returned points, "
             "degenerate parameters, statistical invariants")
ASSUMPTIONS = ["distances within 1e-9 of a threshold are not decided unless they are exact",
               "disjoint resampling is used with p * num_groups <= 1, as in the repository's example",
               "statistical bounds of 7 standard deviations on seeded samples"]
EPS = 1e-9


@st.composite
def euclidean_cases(draw):
    kind = draw(st.sampled_from(["Euclidean VCR", "Euclidean fixed-size", "Euclidean Threshold"]))
    n, m = draw(st.integers(1, 6)), draw(st.integers(1, 9))
    dim = draw(st.integers(1, 3))
    coord = st.one_of(st.integers(-4, 4), st.sampled_from([0.5, -1.5, 0.1, 0.7, 3.25]))
    case = {"kind": kind, "n": n, "m": m, "dim": dim, "seed": draw(st.integers(0, 999)), "kw": {}}
    for who, size in (("voter", n), ("candidate", m)):
        if draw(st.integers(0, 2)):
            case["kw"][f"{who}_points"] = draw(st.lists(
                st.lists(coord, min_size=dim, max_size=dim), min_size=size, max_size=size))
            case["kw"][f"{who}_prob_distribution"] = None
        else:
            case["kw"][f"{who}_prob_distribution"] = draw(points(dim))
    # the dimension is taken from the voters
    if kind == "Euclidean fixed-size":
        case["kw"]["setsize"] = draw(st.integers(0, m))
    elif kind == "Euclidean Threshold":
        case["kw"]["threshold"] = draw(st.sampled_from([1, 1.25, 1.5, 2, 3]))
    else:
        radius = st.sampled_from([0, 0.25, 0.5, 1, 1.5, 2, 3])
        case["kw"]["voter_radius"] = draw(st.one_of(
            radius, st.lists(radius, min_size=n, max_size=n)))
        case["kw"]["candidate_radius"] = draw(st.one_of(
            radius, st.lists(radius, min_size=m, max_size=m)))
    return case


@st.composite
def large_euclidean(draw):
    kind = draw(st.sampled_from(["Euclidean VCR", "Euclidean fixed-size", "Euclidean Threshold"]))
    rng = random.Random(draw(st.integers(0, 2**48)))
    n, m, dim = rng.randint(7, 60), rng.randint(10, 40), rng.randint(1, 3)
    case = {"kind": kind, "n": n, "m": m, "dim": dim, "seed": rng.randrange(10**6), "kw": {}}
    grid = rng.choice([2, 4, 10])
    for who, size in (("voter", n), ("candidate", m)):
        if rng.random() < 0.6:
            case["kw"][f"{who}_points"] = [[rng.randint(-grid, grid) / rng.choice([1, 1, 2, 4])
                                            for _ in range(dim)] for _ in range(size)]
            case["kw"][f"{who}_prob_distribution"] = None
        else:
            case["kw"][f"{who}_prob_distribution"] = draw(points(dim))
    if kind == "Euclidean fixed-size":
        case["kw"]["setsize"] = rng.randint(0, m)
    elif kind == "Euclidean Threshold":
        case["kw"]["threshold"] = rng.choice([1, 1.25, 1.5, 2, 3])
    else:
        radii = [0, 0.25, 0.5, 1, 1.5, 2, 3]
        for key, size in (("voter_radius", n), ("candidate_radius", m)):
            case["kw"][key] = (rng.choice(radii) if rng.random() < 0.4 else
                               [rng.choice(radii) for _ in range(size)])
    return case


def distance(p, q):
    """(float distance, exact distance or None)"""
    p, q = [Fraction(float(x)) for x in p], [Fraction(float(x)) for x in q]
    square = sum((x - y) ** 2 for x, y in zip(p, q))
    num, den = isqrt(square.numerator), isqrt(square.denominator)
    small = square.denominator < 2 ** 20 and square.numerator < 2 ** 20
    exact = small and num * num == square.numerator and den * den == square.denominator
    return sqrt(float(square)), Fraction(num, den) if exact else None


def decide(d, bound):
    """Is distance d <= bound (both (float, exact or None))? None if too close to call."""
    if d[1] is not None and bound[1] is not None:
        return d[1] <= bound[1]
    if abs(d[0] - bound[0]) < EPS:
        return None
    return d[0] < bound[0]


def radius_of(value, i):
    return value[i] if isinstance(value, list) else value


def check_euclidean(case, ctx):
    kind, n, m, dim, spec = case["kind"], case["n"], case["m"], case["dim"], case["kw"]
    kw = real(spec)
    seeded(case["seed"])
    what = f"{kind}, {n} voters, {m} candidates, {spec}"
    res = sut(what, function(kind), n, m, return_points=True, **kw)
    profile, vpos, cpos = split(res, {"return_points": True})
    check_profile(what, profile, n, m)
    for who, pos in (("voter", vpos), ("candidate", cpos)):
        given = spec.get(f"{who}_points")
        if given is not None:
            require(np.array_equal(np.array(given, dtype=float), np.array(pos, dtype=float)),
                    lambda: f"{what}: returned {who} points {pos} instead of {given}")
        else:
            for point in pos:
                check_support(f"{what}: {who}", spec[f"{who}_prob_distribution"], point)
    decided = 0
    for i, ballot in enumerate(ballots(profile)):
        dist = [distance(vpos[i], c) for c in cpos]
        if kind == "Euclidean fixed-size":
            require(len(ballot) == spec["setsize"], lambda: f"{what}: ballot {ballot}")
            far = max([dist[c][0] for c in ballot], default=0)
            near = min([dist[c][0] for c in range(m) if c not in ballot], default=far)
            require(far <= near + EPS,
                    lambda: f"{what}: voter {i} at {vpos[i]} approves {ballot}, distances {dist}")
            decided += 0 < len(ballot) < m
            continue
        low = min(dist)
        for c in range(m):
            if kind == "Euclidean VCR":
                r = (Fraction(radius_of(spec["voter_radius"], i))
                     + Fraction(radius_of(spec["candidate_radius"], c)))
                bound = (float(r), r)
            else:
                t = Fraction(spec["threshold"])
                bound = (low[0] * float(t), None if low[1] is None else low[1] * t)
            want = decide(dist[c], bound)
            if want is not None:
                decided += 1
                require(want == (c in ballot),
                        lambda: f"{what}: voter {i} at {vpos[i]} with ballot {ballot}, but "
                                f"candidate {c} at {cpos[c]} has distance {dist[c]}, limit {bound}")
    ctx.label(kind)
    ctx.label(f"{dim}d")
    ctx.nontrivial(decided and any(0 < len(b) < m for b in ballots(profile)))


def centre(spec, dim):
    value = spec.get("center_point", 0.5)
    return value if isinstance(value, list) else [value] * dim


def check_support(what, spec, point):
    name, dim = spec["name"], int(spec["name"][0])
    require(len(point) == dim, lambda: f"{what}: point {point} has the wrong dimension")
    diff = [float(x) - c for x, c in zip(point, centre(spec, dim))]
    width, sigma = spec.get("width", 1.0), spec.get("sigma", 0.15)
    if name in ("1d_interval", "1d_gaussian_interval", "2d_square", "3d_cube"):
        ok = all(abs(x) <= width / 2 + EPS for x in diff)
    elif name in ("2d_disc", "2d_gaussian_disc"):
        ok = sqrt(sum(x * x for x in diff)) <= width / 2 + EPS
    else:
        ok = all(abs(x) <= 9 * sigma for x in diff)
    require(ok, lambda: f"{what}: point {point} is not in the support of {spec}")


@st.composite
def point_cases(draw):
    spec = draw(points(draw(st.integers(1, 3))))
    if draw(st.integers(0, 4)) == 0:
        spec = {"bad": draw(st.sampled_from([
            ["1d_interval", [0, 0]], ["2d_disc", [0]], ["3d_cube", [1, 2]], ["2d_cube", [0, 0]],
            ["4d_cube", 0], ["interval", 0], ["d_disc", 0], ["", 0], ["xd_disc", 0],
            ["2d", 0], ["3d_gaussian", 0]]))}
    return {"spec": spec, "seed": draw(st.integers(0, 9999))}


def check_points(case, ctx):
    from abcvoting import generate

    spec = case["spec"]
    seeded(case["seed"])
    if "bad" in spec:
        name, center = spec["bad"]
        expect_raises(
            f"PointProbabilityDistribution {name} with center {center}", ValueError,
            lambda: generate.random_point(
                generate.PointProbabilityDistribution(name, center_point=center)))
        ctx.label("invalid")
        ctx.nontrivial()
        return
    dist = generate.PointProbabilityDistribution(**spec)
    dim = int(spec["name"][0])
    require(dist.dimension == dim and list(map(float, dist.center_point)) == list(
        map(float, centre(spec, dim))), f"{spec}: dimension {dist.dimension} {dist.center_point}")
    sample = [sut(f"random_point({spec})", generate.random_point, dist) for _ in range(60)]
    for point in sample:
        check_support("random_point", spec, point)
    require(len({tuple(p) for p in sample}) == 60, f"{spec}: points are repeated")
    diff = np.array(sample, dtype=float) - np.array(centre(spec, dim))
    width, sigma = spec.get("width", 1.0), spec.get("sigma", 0.15)
    spread = np.std(diff, axis=0)
    scale = sigma if spec["name"] in ("1d_gaussian", "2d_gaussian") else width / sqrt(12)
    if spec["name"] in ("1d_gaussian_interval", "2d_gaussian_disc"):
        scale = min(sigma, scale)
    if spec["name"] == "2d_disc":
        scale = width / 4
    require(all(scale / 2.5 <= s <= 2 * scale for s in spread),
            lambda: f"{spec}: standard deviation of 60 points is {spread}, expected {scale}")
    require(all(abs(x) <= 7 * scale / sqrt(60) for x in np.mean(diff, axis=0)),
            lambda: f"{spec}: 60 points are centred {np.mean(diff, axis=0)} away from the centre")
    require(all((diff[:, i] > 0).any() and (diff[:, i] < 0).any() for i in range(dim)),
            f"{spec}: points only on one side of the centre")
    ctx.label(spec["name"])
    ctx.nontrivial()


EXTREME = ["IC 0", "IC 1", "Urn 0", "Urn 1", "Urn same", "Urn fixed same", "Truncated Urn same",
           "Mallows 0", "Resampling phi=0", "Resampling phi=1", "Noise phi=0", "Disjoint phi=0",
           "Disjoint phi=1", "setsize=m", "setsize=0", "VCR large", "threshold large"]


@st.composite
def extreme_cases(draw):
    m = draw(st.integers(1, 24))
    return {"kind": draw(st.sampled_from(EXTREME)), "n": draw(st.integers(1, 12)), "m": m,
            "size": draw(st.integers(0, m)), "p16": draw(st.integers(0, 16)),
            "replace": draw(st.sampled_from([0, 0.5, 3])), "groups": draw(st.integers(1, 6)),
            "distance": draw(st.sampled_from(["hamming", "jaccard", "zelinka", "bunke-shearer"])),
            "arg": draw(st.integers(0, 9)), "seed": draw(st.integers(0, 999))}


def check_extreme(case, ctx):
    from abcvoting import generate

    kind, n, m, size, arg = case["kind"], case["n"], case["m"], case["size"], case["arg"]
    full, p = list(range(m)), case["p16"] / 16
    P = generate.PointProbabilityDistribution  # noqa
    square = P("2d_square")
    want = None
    if kind == "IC 0":
        name, kw, want = "IC", {"p": 0}, []
    elif kind == "IC 1":
        name, kw, want = "IC", {"p": 1}, full
    elif kind == "Urn 0":
        name, kw, want = "Urn", {"p": 0, "replace": case["replace"]}, []
    elif kind == "Urn 1":
        name, kw, want = "Urn", {"p": 1, "replace": case["replace"]}, full
    elif kind == "Urn same":
        name, kw = "Urn", {"p": 0.5, "replace": 1e15}
    elif kind == "Urn fixed same":
        name, kw = "Urn fixed-size", {"setsize": size, "replace": 1e15}
    elif kind == "Truncated Urn same":
        name, kw = "Truncated Urn", {"setsize": size, "replace": 1e15}
    elif kind == "Mallows 0":
        name, kw = "Truncated Mallows", {"setsize": size, "dispersion": 0}
    elif kind == "Resampling phi=0":
        name, kw, want = "Resampling", {"p": p, "phi": 0}, list(range(case["p16"] * m // 16))
    elif kind == "Resampling phi=1":
        name, kw, want = "Resampling", {"p": arg % 2, "phi": 1}, full if arg % 2 else []
    elif kind == "Noise phi=0":
        name, kw, want = ("Noise", {"p": p, "phi": 0, "distance": case["distance"]},
                          list(range(case["p16"] * m // 16)))
    elif kind == "Disjoint phi=0":
        n = 200 if arg < 3 else n
        p = min(case["p16"], 16 // case["groups"]) / 16
        name, kw = "Disjoint Resampling", {"p": p, "phi": 0, "num_groups": case["groups"]}
    elif kind == "Disjoint phi=1":
        name, kw, want = "Disjoint Resampling", {"p": 0, "phi": 1, "num_groups": case["groups"]}, []
    elif kind in ("setsize=m", "setsize=0"):
        name = ["IC fixed-size", "Urn fixed-size", "Truncated Urn", "Truncated Mallows",
                "Euclidean fixed-size"][arg % 5]
        kw = {"setsize": m if kind == "setsize=m" else 0}
        want = full if kind == "setsize=m" else []
        if "Urn" in name:
            kw["replace"] = case["replace"]
        if "Mallows" in name:
            kw["dispersion"] = 0.5
        if "Euclidean" in name:
            kw.update(voter_prob_distribution=square, candidate_prob_distribution=square)
    elif kind == "VCR large":
        radii = [(2, 0), (0, 2), (1, 1)][arg % 3]
        name, kw, want = "Euclidean VCR", {"voter_radius": radii[0], "candidate_radius": radii[1],
                                           "voter_prob_distribution": square,
                                           "candidate_prob_distribution": square}, full
    else:
        name, kw, want = "Euclidean Threshold", {"threshold": 1e15, "candidate_prob_distribution":
                                                 square, "voter_prob_distribution": square}, full
    seeded(case["seed"])
    what = f"{kind}: {name}, {n} voters, {m} candidates, {kw}"
    profile = sut(what, function(name), n, m, **kw)
    check_profile(what, profile, n, m)
    got = ballots(profile)
    if want is not None:
        require(all(b == want for b in got), lambda: f"{what}: ballots {got} instead of {want}")
    elif kind.startswith("Disjoint"):
        groups = {tuple(b) for b in got}
        require(profile.is_party_list() and len(groups) <= case["groups"],
                lambda: f"{what}: ballots {got} are not {case['groups']} disjoint groups")
        require(len(groups) < 2 or sum(map(len, groups)) <= m, lambda: f"{what}: {got}")
        central = [list(range(g * (size := int(p * m)), (g + 1) * size))
                   for g in range(case["groups"])]
        require(all(b in central for b in got), lambda: f"{what}: {got} not all in {central}")
        if n >= 200:  # every group is hit (except with probability < 1e-14)
            require(len(groups) == len({tuple(g) for g in central}),
                    lambda: f"{what}: only the ballots {sorted(groups)} occur")
    else:
        require(all(b == got[0] for b in got), lambda: f"{what}: ballots are not identical: {got}")
    ctx.label(kind)
    ctx.nontrivial(n > 1 and m > 1)


@st.composite
def frequency_cases(draw):
    m = draw(st.one_of(st.integers(2, 8), st.integers(8, 12)))
    return {"kind": draw(st.sampled_from(["IC", "IC default", "Urn", "Resampling", "Noise",
                                          "IC fixed-size", "Urn fixed-size", "Truncated Urn",
                                          "Truncated Mallows", "Disjoint", "Disjoint groups",
                                          "Noise jaccard", "Noise zelinka", "Noise bunke-shearer",
                                          "Noise hamming", "Mallows 1", "Mallows m-1"])),
            "m": m, "size": draw(st.integers(1, m)), "p": draw(st.integers(1, 15)),
            "phi": draw(st.integers(1, 15)), "groups": draw(st.integers(2, 4)),
            "seed": draw(st.integers(0, 9999))}


def noise_frequencies(m, central, phi, distance):
    """Approval probabilities if P(S) is proportional to phi ** distance(S, central vote)."""
    ref = frozenset(range(central))
    total, want = 0.0, [0.0] * m
    for mask in range(1 << m):
        s = frozenset(c for c in range(m) if mask >> c & 1)
        big = max(len(s), len(ref))
        if distance == "hamming":
            d = len(s ^ ref)
        elif distance == "zelinka":
            d = big - len(s & ref)
        elif not s | ref:
            continue  # undefined; the empty set is not generated then
        elif distance == "jaccard":
            d = len(s ^ ref) / len(s | ref)
        else:
            d = 1 - len(s & ref) / big
        total += phi ** d
        for c in s:
            want[c] += phi ** d
    return [x / total for x in want]


def check_frequency(case, ctx):
    """Frequencies of approvals in a large sample agree with the documented model."""
    kind, m, p, phi, size = case["kind"], case["m"], case["p"] / 16, case["phi"] / 16, case["size"]
    n = 1500 if kind.startswith("Mallows") else 400
    if kind.startswith("Noise "):
        m = min(m, 8)
        size = min(size, m)
    central = case["p"] * m // 16
    if kind == "IC":
        name, kw, want = "IC", {"p": p}, [p] * m
    elif kind == "IC default":
        name, kw, want = "IC", {}, [0.5] * m
    elif kind == "Urn":
        name, kw, want = "Urn", {"p": p, "replace": 0}, [p] * m
    elif kind == "Resampling":
        name, kw = "Resampling", {"p": p, "phi": phi}
        want = [(1 - phi) * (c < central) + phi * p for c in range(m)]
    elif kind == "Noise":
        name, kw = "Noise", {"p": p, "phi": phi}
        flip = phi / (1 + phi)
        want = [1 - flip if c < central else flip for c in range(m)]
    elif kind == "IC fixed-size":
        name, kw, want = kind, {"setsize": size}, [size / m] * m
    elif kind in ("Urn fixed-size", "Truncated Urn"):
        name, kw, want = kind, {"setsize": size, "replace": 0}, [size / m] * m
    elif kind == "Truncated Mallows":  # uniform for dispersion 1
        name, kw, want = kind, {"setsize": size, "dispersion": 1}, [size / m] * m
    elif kind.startswith("Noise "):
        distance = kind.split()[1]
        name, kw = "Noise", {"p": p, "phi": phi, "distance": distance}
        want = noise_frequencies(m, central, phi, distance)
    elif kind.startswith("Mallows"):
        # the reference ranking is 0, 1, ...; P(c is first) is proportional to phi ** c and
        # P(c is last) to phi ** (m - 1 - c)
        base = [phi ** c for c in range(m)]
        base = [x / sum(base) for x in base]
        size = 1 if kind == "Mallows 1" else m - 1
        name, kw = "Truncated Mallows", {"setsize": size, "dispersion": phi}
        want = base if kind == "Mallows 1" else [1 - x for x in reversed(base)]
    elif kind == "Disjoint groups":
        g = case["groups"]
        p = min(case["p"], 16 // g) / 16
        central = int(p * m)
        name, kw = "Disjoint Resampling", {"p": p, "phi": phi, "num_groups": g}
        want = [(1 - phi) / g * (c < g * central) + phi * p for c in range(m)]
    else:  # a single group that approves the first candidates
        name, kw = "Disjoint Resampling", {"p": p, "phi": phi, "num_groups": 1}
        want = [(1 - phi) * (c < central) + phi * p for c in range(m)]
    seeded(case["seed"])
    what = f"{name}, {n} voters, {m} candidates, {kw}"
    profile = sut(what, function(name), n, m, **kw)
    check_profile(what, profile, n, m)
    for c in range(m):
        freq = sum(c in v.approved for v in profile) / n
        slack = 7 * sqrt(max(want[c] * (1 - want[c]), 0.002) / n)
        require(abs(freq - want[c]) <= slack,
                lambda: f"{what}: candidate {c} has {freq:.3f} approvals, expected {want[c]:.3f}")
    ctx.label(kind)
    ctx.nontrivial(any(0.01 < w < 0.99 for w in want))


@st.composite
def urn_cases(draw):
    return {"kind": draw(st.sampled_from(["Urn", "Urn fixed-size", "Truncated Urn"])),
            "n": draw(st.integers(100, 300)), "m": draw(st.integers(36, 44)),
            "replace": draw(st.sampled_from([0, 0.01, 0.02, 0.05, 0.1, 0.3, 1, 2])),
            "seed": draw(st.integers(0, 99999))}


def check_urn(case, ctx):
    """The i-th vote is new with probability 1 / (1 + i * replace)."""
    kind, n, m, alpha = case["kind"], case["n"], case["m"], case["replace"]
    kw = {"replace": alpha, **({"p": 0.5} if kind == "Urn" else {"setsize": m // 2})}
    seeded(case["seed"])
    what = f"{kind}, {n} voters, {m} candidates, {kw}"
    profile = sut(what, function(kind), n, m, **kw)
    check_profile(what, profile, n, m)
    kinds = len({frozenset(v.approved) for v in profile})
    probs = [1 / (1 + i * alpha) for i in range(n)]
    mean = sum(probs)
    # Bernstein's inequality: less than 1e-10 each
    var = sum(q * (1 - q) for q in probs)
    slack = sqrt(2 * var * 24) + 16
    if alpha == 0:
        slack = 0  # two ballots coincide with probability < 1e-5 only
        kinds = n if kinds >= n - 1 else kinds
    require(abs(kinds - mean) <= slack,
            lambda: f"{what}: {kinds} different ballots, expected {mean:.1f}")
    ctx.label(f"replace {alpha}")
    ctx.nontrivial(1 < kinds)


FACETS = [
    Facet("euclidean", euclidean_cases(), check_euclidean, 5000, 100000,
          "given and sampled points; non-trivial: a ballot that is neither empty nor full and a "
          "decided distance"),
    Facet("large-euclidean", large_euclidean(), check_euclidean, 250, 6000,
          "7-60 voters, 10-40 candidates", min_shard=30),
    Facet("points", point_cases(), check_points, 1500, 20000,
          "60 points of a distribution each (or an invalid one); every distinct case counts"),
    Facet("extreme", extreme_cases(), check_extreme, 4000, 80000,
          "parameters with a determined outcome; non-trivial: at least two voters and candidates"),
    Facet("frequency", frequency_cases(), check_frequency, 1200, 12000,
          "400 voters each; non-trivial: an expected frequency strictly between 0 and 1"),
    Facet("urn", urn_cases(), check_urn, 200, 3000,
          "number of different ballots of 100 to 300 voters and about 40 candidates; "
          "non-trivial: several ballots"),
]
assert set(DISTS)
