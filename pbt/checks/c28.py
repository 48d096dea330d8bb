"""C28: random generators return valid profiles of the requested shape."""

import copy

import numpy as np
from hypothesis import strategies as st

from pbt.core import Facet, expect_raises, require, sut

RULE = ("All documented distributions with generated sizes, parameters and seeds; shape invariants of "
        "the returned profile, reproducibility for a seeded generate.rng, and faults in parameters.")
TECHNIQUE = "property-based testing (Hypothesis): shape invariants, reproducibility, fault injection"
ASSUMPTIONS = ["disjoint resampling is used with p * num_groups <= 1, as in the repository's example"]

DISTS = ["1d_interval", "1d_gaussian", "1d_gaussian_interval", "2d_disc", "2d_square",
         "2d_gaussian", "2d_gaussian_disc", "3d_cube"]
IDS = ["IC fixed-size", "IC", "Truncated Mallows", "Urn fixed-size", "Urn", "Truncated Urn",
       "Euclidean VCR", "Euclidean fixed-size", "Euclidean Threshold", "Resampling",
       "Disjoint Resampling", "Noise"]
PROB = st.sampled_from([0, 1, 0.5, 0.25, 1.0, 0.0, 0.1, 0.3, 0.7, 0.99, 1 / 3])


def function(name):
    from abcvoting import generate as g

    return {
        "IC fixed-size": g.random_ic_fixed_size_profile, "IC": g.random_ic_profile,
        "Truncated Mallows": g.random_mallows_profile,
        "Urn fixed-size": g.random_urn_fixed_size_profile, "Urn": g.random_urn_profile,
        "Truncated Urn": g.random_truncated_urn_profile,
        "Euclidean VCR": g.random_euclidean_vcr_profile,
        "Euclidean fixed-size": g.random_euclidean_fixed_size_profile,
        "Euclidean Threshold": g.random_euclidean_threshold_profile,
        "Resampling": g.random_resampling_profile,
        "Disjoint Resampling": g.random_disjoint_resampling_profile,
        "Noise": g.random_noise_model_profile,
    }[name]


@st.composite
def points(draw, dim):
    """JSON description of a PointProbabilityDistribution of a given dimension."""
    name = draw(st.sampled_from([d for d in DISTS if d.startswith(f"{dim}d")]))
    spec = {"name": name}
    coord = st.sampled_from([0, 0.5, -1, 2, 0.25])
    if draw(st.booleans()):
        spec["center_point"] = draw(st.one_of(coord, st.lists(coord, min_size=dim, max_size=dim)))
    if draw(st.booleans()):
        spec["sigma"] = draw(st.sampled_from([0.05, 0.15, 0.5, 1]))
    if draw(st.booleans()):
        spec["width"] = draw(st.sampled_from([0.5, 1, 2, 3.5]))
    return spec


@st.composite
def params(draw, name, n, m):
    """Admissible parameters of a distribution (JSON)."""
    kw = {}
    if name in ("IC fixed-size", "Truncated Mallows", "Urn fixed-size", "Truncated Urn",
                "Euclidean fixed-size"):
        kw["setsize"] = draw(st.one_of(st.integers(0, m), st.integers(1, min(m, 4))))
    if name in ("Urn fixed-size", "Truncated Urn", "Urn"):
        kw["replace"] = draw(st.sampled_from([0, 0.0, 0.1, 0.5, 1, 2.5, 100]))
    if name == "Truncated Mallows":
        kw["dispersion"] = draw(PROB)
    if name in ("Urn", "Resampling", "Noise") or name == "IC" and draw(st.booleans()):
        kw["p"] = draw(PROB)
    if name in ("Resampling", "Noise"):
        kw["phi"] = draw(PROB)
    if name == "Noise" and draw(st.booleans()):
        kw["distance"] = draw(st.sampled_from(["hamming", "jaccard", "zelinka", "bunke-shearer"]))
    if name == "Disjoint Resampling":
        groups = draw(st.one_of(st.none(), st.integers(1, 5)))
        if groups:
            kw["num_groups"] = groups
        kw["p"] = draw(st.sampled_from([0, 0.125, 0.25, 0.5, 1, 0.2]).filter(
            lambda p: p * (groups or 2) <= 1))
        if draw(st.booleans()):
            kw["phi"] = draw(PROB)
    if name.startswith("Euclidean"):
        dim = draw(st.integers(1, 3))
        kw["voter_prob_distribution"] = draw(points(dim))
        kw["candidate_prob_distribution"] = draw(points(dim))
        kw["return_points"] = draw(st.booleans())
    if name == "Euclidean Threshold":
        kw["threshold"] = draw(st.sampled_from([1, 1.0, 1.1, 1.5, 2, 10]))
    if name == "Euclidean VCR":
        radius = st.sampled_from([0, 0.1, 0.25, 0.5, 3])
        kw["voter_radius"] = draw(st.one_of(radius, st.lists(radius, min_size=n, max_size=n)))
        kw["candidate_radius"] = draw(st.one_of(radius, st.lists(radius, min_size=m, max_size=m)))
    return kw


@st.composite
def cases(draw):
    name = draw(st.sampled_from(IDS))
    n = draw(st.integers(1, 8))
    m = draw(st.one_of(st.integers(1, 12), st.integers(1, 120)))
    if name == "Noise":
        m = min(m, 25)
    return {"id": name, "n": n, "m": m, "kw": draw(params(name, n, m)),
            "seed": draw(st.integers(0, 999)), "numpy": draw(st.booleans())}


def real(kw):
    from abcvoting.generate import PointProbabilityDistribution

    kw = copy.deepcopy(kw)
    for key in ("voter_prob_distribution", "candidate_prob_distribution"):
        if isinstance(kw.get(key), dict):
            kw[key] = PointProbabilityDistribution(**kw[key])
    return kw


def seeded(seed):
    from abcvoting import generate

    generate.rng = np.random.default_rng(seed)


def split(res, kw):
    """profile (and points) from a returned value"""
    if kw.get("return_points"):
        require(isinstance(res, tuple) and len(res) == 3, f"return_points=True gives {res!r}")
        return res
    return res, None, None


def ballots(profile):
    return [sorted(int(c) for c in v.approved) for v in profile]


def check_profile(what, profile, n, m):
    from abcvoting.preferences import Profile

    require(isinstance(profile, Profile), lambda: f"{what} returned {profile!r}")
    require(len(profile) == n and profile.num_cand == m,
            lambda: f"{what}: {len(profile)} voters and {profile.num_cand} candidates")
    require(profile.has_unit_weights() and all(v.weight == 1 for v in profile),
            f"{what}: weights are not 1")
    for v in profile:
        require(all(c in range(m) for c in v.approved) and v.weight == 1,
                lambda: f"{what}: voter {v.approved} with weight {v.weight}")
        require(len(set(int(c) for c in v.approved)) == len(v.approved), f"{what}: {v.approved}")


def check_shape(case, ctx):
    from abcvoting import generate

    name, n, m, kw = case["id"], case["n"], case["m"], real(case["kw"])
    what = f"random_profile({n}, {m}, {name} with {case['kw']})"
    num = (np.int64 if case["numpy"] else int)
    dist = dict(kw, id=name)
    before = dict(dist)
    seeded(case["seed"])
    res = sut(what, generate.random_profile, num(n), num(m), dist)
    require(dist.keys() == before.keys() and all(dist[x] is before[x] for x in dist),
            f"{what} changed the specification of the distribution")
    profile, vpos, cpos = split(res, kw)
    check_profile(what, profile, n, m)
    if "setsize" in kw:
        require(all(len(v.approved) == kw["setsize"] for v in profile),
                lambda: f"{what}: ballots {ballots(profile)} instead of size {kw['setsize']}")
    if "threshold" in kw:
        require(all(len(v.approved) >= 1 for v in profile), f"{what}: empty ballot")
    # the function called directly with keyword arguments, equally seeded
    seeded(case["seed"])
    again, vpos2, cpos2 = split(sut(what, function(name), num_voters=n, num_cand=m, **real(
        case["kw"])), kw)
    require(ballots(profile) == ballots(again),
            lambda: f"{what}: an equally seeded call gives {ballots(again)} instead of "
                    f"{ballots(profile)}")
    if vpos is not None:
        require(np.array_equal(vpos, vpos2) and np.array_equal(cpos, cpos2),
                f"{what}: an equally seeded call returns other points")
        dim = int(case["kw"]["voter_prob_distribution"]["name"][0])
        require(np.shape(vpos) == (n, dim) and np.shape(cpos) == (m, dim),
                lambda: f"{what}: points of shape {np.shape(vpos)} and {np.shape(cpos)}")
    ctx.label(name)
    sizes = {len(v.approved) for v in profile}
    ctx.nontrivial(n > 1 and m > 1 and sizes - {0, m})


@st.composite
def large_cases(draw):
    """Many voters, many candidates."""
    name = draw(st.sampled_from(IDS))
    n = draw(st.one_of(st.integers(9, 40), st.integers(40, 300)))
    m = draw(st.one_of(st.integers(1, 12), st.integers(12, 60)))
    if name == "Noise":
        n, m = min(n, 100), min(m, 25)
    return {"id": name, "n": n, "m": m, "kw": draw(params(name, n, m)),
            "seed": draw(st.integers(0, 2**40)), "numpy": draw(st.booleans())}


FAULTS = ["n=0", "n<0", "m=0", "m<0", "setsize>m", "setsize<0", "p>1", "p<0", "phi>1", "phi<0",
          "replace<0", "dispersion>1", "dispersion<0", "threshold<1", "distance", "num_groups=0",
          "id", "no id", "unknown parameter", "missing parameter", "radius", "dimension", "points",
          "no points"]
KEY = {"setsize>m": "setsize", "setsize<0": "setsize", "p>1": "p", "p<0": "p", "phi>1": "phi",
       "phi<0": "phi", "replace<0": "replace", "dispersion>1": "dispersion",
       "dispersion<0": "dispersion", "threshold<1": "threshold"}


@st.composite
def fault_cases(draw):
    fault = draw(st.sampled_from(FAULTS))
    ids = IDS
    if fault in KEY:
        key = KEY[fault]
        have = {"setsize": [0, 2, 3, 5, 7], "p": [4, 9, 10, 11], "phi": [9, 10, 11],
                "replace": [3, 4, 5], "dispersion": [2], "threshold": [8]}[key]
        ids = [IDS[i] for i in have]
    elif fault == "distance":
        ids = ["Noise"]
    elif fault == "num_groups=0":
        ids = ["Disjoint Resampling"]
    elif fault == "radius":
        ids = ["Euclidean VCR"]
    elif fault in ("dimension", "points", "no points"):
        ids = ["Euclidean VCR", "Euclidean fixed-size", "Euclidean Threshold"]
    name = draw(st.sampled_from(ids))
    n, m = draw(st.integers(2, 5)), draw(st.integers(2, 6))
    return {"id": name, "n": n, "m": m, "kw": draw(params(name, n, m)), "fault": fault,
            "arg": draw(st.integers(0, 11)), "seed": 0}


def check_fault(case, ctx):
    from abcvoting import generate

    name, n, m, kw, fault, arg = (case["id"], case["n"], case["m"], real(case["kw"]),
                                  case["fault"], case["arg"])
    types = ValueError
    if fault == "n=0":
        n = 0
    elif fault == "n<0":
        n = -1 - arg
    elif fault == "m=0":
        m, types = 0, (ValueError, ZeroDivisionError)
    elif fault == "m<0":
        m = -1 - arg
    elif fault in KEY:
        kw[KEY[fault]] = {"setsize>m": m + 1 + arg, "setsize<0": -1 - arg, "threshold<1":
                          [0.99, 0, -1][arg % 3]}.get(
            fault, [1.01, 2, 5][arg % 3] if ">" in fault else [-0.01, -1, -7][arg % 3])
    elif fault == "distance":
        kw["distance"] = ["Hamming", "", "euclidean", "jaccard "][arg % 4]
    elif fault == "num_groups=0":
        kw["num_groups"] = -(arg % 3)
    elif fault == "id":
        name = ["", "ic", "IC ", "Mallows", "Euclidean", "noise"][arg % 6]
    elif fault == "no id":
        types = KeyError
    elif fault == "unknown parameter":
        kw["prob"], types = 0.5, TypeError
    elif fault == "missing parameter":
        keys = [k for k in kw if k in ("setsize", "replace", "dispersion", "threshold",
                                       "voter_radius", "candidate_radius")]
        if not keys:
            return
        del kw[keys[arg % len(keys)]]
        types = TypeError
    elif fault == "radius":
        key = ["voter_radius", "candidate_radius"][arg % 2]
        size = [n, m][arg % 2]
        kw[key] = [0.5] * (size + [1, -1, 3][arg % 3])
    elif fault == "dimension":
        dim = int(kw["voter_prob_distribution"].name[0])
        kw["voter_prob_distribution"] = generate.PointProbabilityDistribution(
            ["1d_interval", "2d_square", "3d_cube"][dim % 3])
    elif fault == "points":
        dim = int(kw["voter_prob_distribution"].name[0])
        key, size = [("voter", n), ("candidate", m)][arg % 2]
        kw[f"{key}_prob_distribution"] = None
        kw[f"{key}_points"] = [[0.5] * dim] * (size + [1, -1][arg // 2 % 2])
    elif fault == "no points":
        kw["voter_prob_distribution"] = None
        if arg % 2:
            kw["candidate_prob_distribution"] = None
    dist = dict(kw, id=name)
    if fault == "no id":
        del dist["id"]
    seeded(case["seed"])
    what = f"random_profile({n}, {m}, {case['id']} with {kw}), fault {fault}"
    expect_raises(what, types, generate.random_profile, n, m, dist)
    if fault not in ("id", "no id"):
        expect_raises(what, types, function(name), n, m, **kw)
    ctx.label(fault)
    ctx.nontrivial()


FACETS = [
    Facet("shape", cases(), check_shape, 5000, 100000,
          "1-8 voters, 1-120 candidates; non-trivial: some ballot is neither empty nor full"),
    Facet("large", large_cases(), check_shape, 400, 10000,
          "9-300 voters, 1-60 candidates", min_shard=40),
    Facet("faults", fault_cases(), check_fault, 2500, 40000,
          "an inadmissible parameter is rejected; every distinct case counts"),
]
