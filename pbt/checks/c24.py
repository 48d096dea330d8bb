"""C24: YAML instances survive a write/read round trip."""

import os
import random
import tempfile
from fractions import Fraction

from hypothesis import strategies as st

from pbt import gen, rules
from pbt.core import Facet, expect_raises, require, sut
from pbt.gen import fmt, to_weight

RULE = ("Round trip write -> read -> write -> read of generated instances (all weight types, "
        "descriptions, rule computations with and without results), a replay of the stored "
        "computations, and independently generated yaml texts with known contents.")
TECHNIQUE = "property-based testing (Hypothesis): round trip and grammar-based file generation"

PARAMS = {
    "algorithm": ["fastest", "standard", "gurobi", "branch-and-bound"],
    "resolute": [True, False],
    "max_num_of_committees": [None, 1, 2, 10],
    "completion": ["none", "seqphragmen", None],
    "lexicographic_tiebreaking": [True, False],
}
descriptions = st.one_of(
    st.none(),
    st.text(st.characters(codec="utf-8", categories=("L", "N", "P", "S", "Zs")), max_size=20),
    st.text("ab: #-'\"\n\t[]{},|>&*!%@`", max_size=20),
    st.sampled_from(["yes", "null", "1", "1.0", "~", "a: b", "- a", "# a", "two\nlines", "",
                     "trailing \n", " leading", "---", "...", "x" * 300]),
)


@st.composite
def profiles(draw):
    case = draw(gen.instances(max_m=11, max_n=8, modes=("unit", "int", "frac", "big", "small", "balanced")))
    case["wtype"] = draw(st.sampled_from(["plain", "plain", "float", "Fraction", "numpy", "mpq"]))
    case["ctype"] = draw(st.sampled_from(["int", "int", "numpy"]))
    return case


@st.composite
def cases(draw):
    case = draw(profiles())
    m = case["m"]
    committee = st.lists(st.integers(0, m - 1), max_size=m, unique=True)
    instances = []
    if draw(st.booleans()):
        for _ in range(draw(st.integers(0, 3))):
            inst = {"rule_id": draw(st.sampled_from(["av", "pav", "equal-shares", "xyz"]))}
            for key in draw(st.lists(st.sampled_from(sorted(PARAMS)), max_size=3, unique=True)):
                inst[key] = draw(st.sampled_from(PARAMS[key]))
            what = draw(st.sampled_from(["absent", "none", "list", "list", "sets"]))
            if what == "none":
                inst["result"] = None
            elif what != "absent":
                inst["result"] = draw(st.lists(committee, max_size=4))
                inst["as_sets"] = what == "sets"
            inst["with"] = draw(st.sampled_from(["", "p", "k", "pk"]))
            instances.append(inst)
    else:
        instances = None
    return dict(case, instances=instances, description=draw(descriptions),
                with_k=draw(st.booleans()))


def make_profile(case):
    import gmpy2
    import numpy as np
    from abcvoting.preferences import Profile, Voter

    profile = Profile(case["m"])
    weights = []
    for ballot, w in zip(case["b"], case["w"]):
        w = to_weight(w)
        if case["wtype"] == "float":
            w = float(w)
        elif case["wtype"] == "Fraction":
            w = Fraction(w)
        elif case["wtype"] == "numpy":
            w = np.int64(w) if isinstance(w, int) else np.float64(w)
        elif case["wtype"] == "mpq":
            w = gmpy2.mpq(w)
        if case["ctype"] == "numpy":
            ballot = [np.int64(c) for c in ballot]
        weights.append(w)
        profile.add_voter(Voter(ballot, weight=w))
    return profile, weights


def exact(w):
    return Fraction(float(w)) if isinstance(w, float) else Fraction(int(w.numerator),
                                                                     int(w.denominator))


def contents(profile):
    return [(tuple(sorted(int(c) for c in v.approved)), exact(v.weight)) for v in profile]


def strip(inst):
    return {k: v for k, v in inst.items() if k not in ("profile", "committeesize", "result")}


def check_roundtrip(case, ctx):
    from abcvoting import fileio
    from abcvoting.misc import CandidateSet

    profile, weights = make_profile(case)
    want = [(tuple(b), exact(w)) for b, w in zip(case["b"], weights)]
    k = case["k"] if case["with_k"] else None
    instances = None
    if case["instances"] is not None:
        instances = []
        for item in case["instances"]:
            inst = {key: val for key, val in item.items() if key not in ("as_sets", "with")}
            if item.get("as_sets"):
                inst["result"] = [CandidateSet(c) for c in inst["result"]]
            if "p" in item["with"]:
                inst["profile"] = profile
            if "k" in item["with"]:
                inst["committeesize"] = k
            instances.append(inst)
    expected = [strip(i) for i in instances or []]
    results = [i.get("result", "absent") for i in instances or []]
    results = [r if r in (None, "absent") else [sorted(c) for c in r] for r in results]

    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "x.abc.yaml")
        args = dict(profile=profile, committeesize=k, compute_instances=instances,
                    description=case["description"])
        for rnd in ("first", "second"):
            sut(f"{rnd} write", fileio.write_abcvoting_instance_to_yaml_file, path, **args)
            got, got_k, got_inst, data = sut(f"{rnd} read", fileio.read_abcvoting_yaml_file, path)
            where = f"{rnd} round trip"
            require(contents(got) == want,
                    lambda: f"{where}: voters {contents(got)}, expected {want}")
            require(got.num_cand == case["m"], lambda: f"{where}: num_cand {got.num_cand}")
            require(got_k == k, lambda: f"{where}: committeesize {got_k}, expected {k}")
            require([strip(i) for i in got_inst] == expected,
                    lambda: f"{where}: computations {[strip(i) for i in got_inst]}, "
                            f"expected {expected}")
            require(all(i["profile"] is got and i["committeesize"] == k for i in got_inst),
                    f"{where}: computations do not refer to the profile / committee size read")
            got_results = [i.get("result", "absent") for i in got_inst]
            require([r if r in (None, "absent") else [sorted(c) for c in r] for r in got_results]
                    == results, lambda: f"{where}: results {got_results}, expected {results}")
            require(all(isinstance(c, CandidateSet) for r in got_results
                        if r not in (None, "absent") for c in r),
                    f"{where}: results are not CandidateSets")
            require(data.get("description") == case["description"],
                    lambda: f"{where}: description {data.get('description')!r}, expected "
                            f"{case['description']!r}")
            args = dict(profile=got, committeesize=got_k, compute_instances=got_inst,
                        description=data.get("description"))
    ctx.label("weights: " + case["wtype"])
    ctx.label("computations" if expected else "no computations")
    ctx.nontrivial(any(case["b"]) and len(want) > 1)


@st.composite
def replay_cases(draw):
    case = draw(gen.instances(max_m=6, max_n=6, max_k=4, modes=("unit", "int", "frac")))
    ids = [r for r in rules.all_rule_ids() if r not in ("rsd", "leximaxphragmen")]
    case["rules"] = draw(st.lists(st.tuples(st.sampled_from(ids), st.booleans()).map(list),
                                  min_size=1, max_size=3))
    return case


def check_replay(case, ctx):
    """Computations stored with their results give the same results after reading them."""
    from abcvoting import abcrules, fileio

    profile = gen.build(case)
    stored = []
    for rule_id, resolute in case["rules"]:
        algos = [a for a in rules.algos_for(rule_id, case) if a in ("standard", "brute-force",
                                                                   "branch-and-bound",
                                                                   "standard-fractions")]
        if not algos or not rules.supports(rule_id, resolute):
            continue
        inst = {"rule_id": rule_id, "resolute": resolute, "algorithm": algos[0]}
        res = rules.compute(rule_id, profile, case["k"], resolute=resolute, algorithm=algos[0])
        stored.append(dict(inst, result=res))
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "x.abc.yaml")
        sut("write", fileio.write_abcvoting_instance_to_yaml_file, path, profile,
            committeesize=case["k"], compute_instances=stored)
        _, _, got, _ = sut("read", fileio.read_abcvoting_yaml_file, path)
    require(len(got) == len(stored), f"{len(got)} computations instead of {len(stored)}")
    for old, new in zip(stored, got):
        require(fmt(new["result"]) == fmt(old["result"]),
                lambda: f"stored {old['result']}, read {new['result']}")
        new = dict(new)
        result = new.pop("result")
        again = sut(f"compute {new['rule_id']}", abcrules.compute, **new)
        require(list(again) == list(result),
                lambda: f"{new['rule_id']}: computing the stored instance gives {again}, but the "
                        f"stored result is {result}")
        ctx.label(new["rule_id"])
        ctx.nontrivial(len(result) < rules.binom(case["m"], case["k"]))


@st.composite
def texts(draw):
    case = draw(gen.instances(max_m=8, max_n=6, modes=("unit", "int", "frac", "big")))
    return dict(case, explicit_m=draw(st.booleans()), explicit_k=draw(st.booleans()),
                flow=draw(st.booleans()), order=draw(st.permutations(range(5))),
                compute=draw(st.sampled_from([None, [], ["av"], ["av", "pav"]])))


def check_text(case, ctx):
    """Independently written yaml text."""
    from abcvoting import fileio

    if case["flow"]:
        prof = "profile: " + str([list(b) for b in case["b"]])
    else:
        prof = "profile:\n" + "".join(f"- {list(b)}\n" for b in case["b"])
    parts = [prof]
    weighted = not gen.unit(case)
    if weighted:
        quoted = [w if "/" not in w else f'"{w}"' for w in case["w"]]
        parts.append("voter_weights: [" + ", ".join(quoted) + "]")
    approved = [c for b in case["b"] for c in b]
    m = case["m"] if case["explicit_m"] or not approved else max(approved) + 1
    if case["explicit_m"] or not approved:
        parts.append(f"num_cand: {m}")
    if case["explicit_k"]:
        parts.append(f"committeesize: {case['k']}")
    if case["compute"] is not None:
        parts.append("compute: [" + ", ".join("{rule_id: %s, resolute: true}" % r
                                              for r in case["compute"]) + "]")
    parts = [parts[i] for i in case["order"] if i < len(parts)]
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "x.abc.yaml")
        with open(path, "w") as fh:
            fh.write("\n".join(parts) + "\n")
        profile, k, inst, _ = sut("read", fileio.read_abcvoting_yaml_file, path)
    want = [(tuple(b), Fraction(w)) for b, w in zip(case["b"], case["w"])]
    require(contents(profile) == want, lambda: f"voters {contents(profile)}, expected {want}")
    require(profile.num_cand == m, f"num_cand {profile.num_cand}, expected {m}")
    require(k == (case["k"] if case["explicit_k"] else None), f"committeesize {k}")
    require([(i["rule_id"], i["resolute"]) for i in inst]
            == [(r, True) for r in case["compute"] or []], lambda: f"computations {inst}")
    ctx.label("weighted" if weighted else "unit weights")
    ctx.nontrivial(len(want) > 1)


@st.composite
def bad_writes(draw):
    case = draw(gen.instances(max_m=4, max_n=4, modes=("unit", "int")))
    return dict(case, what=draw(st.sampled_from(["rule_id", "profile", "weights", "names", "k"])))


def check_bad_write(case, ctx):
    """Computations that belong to a different instance are rejected, no file is written."""
    from abcvoting import fileio
    from abcvoting.preferences import Profile, Voter

    profile = gen.build(case)
    inst = {"rule_id": "av"}
    if case["what"] == "rule_id":
        inst = {"algorithm": "standard"}
    elif case["what"] == "profile":
        other = gen.build(case)
        other.add_voter([0])
        inst["profile"] = other
    elif case["what"] == "weights":
        other = Profile(case["m"])
        for v in profile:
            other.add_voter(Voter(v.approved, weight=v.weight + 1))
        inst["profile"] = other
    elif case["what"] == "names":
        inst["profile"] = gen.build(dict(case, m=case["m"] + 1))
    else:
        inst["committeesize"] = case["k"] + 1
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "x.abc.yaml")
        expect_raises(f"writing a computation with different {case['what']}", ValueError,
                      fileio.write_abcvoting_instance_to_yaml_file, path, profile,
                      committeesize=case["k"], compute_instances=[{"rule_id": "pav"}, inst])
        require(os.listdir(tmp) == [], "a file was written nevertheless")
    ctx.label(case["what"])
    ctx.nontrivial()


@st.composite
def large_cases(draw):
    """Hundreds of voters, three-digit candidate numbers, long lists of computations."""
    rng = random.Random(draw(st.integers(0, 2**48)))
    case = gen.large_file_case(rng, (12, 130), (30, 250), ("unit", "int", "frac", "wide"))
    case["wtype"] = rng.choice(["plain", "plain", "float", "Fraction", "mpq"])
    case["ctype"] = rng.choice(["int", "numpy"])
    instances = None
    if rng.random() < 0.7:
        instances = []
        for _ in range(rng.randint(1, 15)):
            inst = {"rule_id": rng.choice(["av", "pav", "equal-shares"]), "with": "",
                    "resolute": rng.random() < 0.5, "as_sets": rng.random() < 0.5}
            inst["result"] = [sorted(rng.sample(range(case["m"]), case["k"]))
                              for _ in range(rng.randint(0, 12))]
            instances.append(inst)
    return dict(case, instances=instances, description="large " * rng.randint(0, 300) + "end",
                with_k=rng.random() < 0.8)


@st.composite
def large_texts(draw):
    rng = random.Random(draw(st.integers(0, 2**48)))
    case = gen.large_file_case(rng, (12, 130), (30, 250), ("unit", "int", "frac", "wide"))
    return dict(case, explicit_m=rng.random() < 0.5, explicit_k=rng.random() < 0.5,
                flow=rng.random() < 0.5, order=rng.sample(range(5), 5),
                compute=rng.choice([None, [], ["av"] * 30]))


FACETS = [
    Facet("roundtrip", cases(), check_roundtrip, 3000, 60000,
          "instances with up to 11 candidates, all weight types; non-trivial: at least two voters "
          "and a non-empty ballot"),
    Facet("replay", replay_cases(), check_replay, 1000, 20000,
          "computations are stored with their result, read and computed again; non-trivial: not "
          "every committee wins"),
    Facet("texts", texts(), check_text, 2500, 50000,
          "independently written yaml texts; non-trivial: at least two voters"),
    Facet("large-roundtrip", large_cases(), check_roundtrip, 48, 1200,
          "12-130 candidates, 30-250 voters, up to 15 computations with up to 12 committees",
          min_shard=6),
    Facet("large-texts", large_texts(), check_text, 80, 2000,
          "12-130 candidates, 30-250 voters", min_shard=10, minimise=True),
    Facet("bad-writes", bad_writes(), check_bad_write, 400, 6000,
          "inconsistent or incomplete computations"),
]
