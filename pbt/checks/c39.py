"""C39: property checks depend only on what they should."""

import random
from fractions import Fraction

from hypothesis import strategies as st

from pbt import axcheck, axioms, gen
from pbt.core import Facet, require

RULE = ("A property check is repeated (with any of its algorithms) on a transformed election for which the "
        "answer must be the same, or may only change in one direction.")
TECHNIQUE = "property-based testing (Hypothesis): metamorphic relations"
ASSUMPTIONS = ["ILP algorithms within the size limits of the restricted Gurobi licence"]

RELATIONS = ["voters", "candidates", "copies", "merge", "scale", "empty voters", "unapproved",
             "container", "again", "names", "quota", "clone", "approve", "split"]


def relations(prop):
    out = list(RELATIONS)
    if prop not in axioms.WITH_QUOTA:
        out.remove("quota")
    if prop not in ("jr", "ejr+"):
        out.remove("clone")
    if prop != "jr":
        out.remove("approve")
    return out


def transform(case, rel, rng):
    """A transformed case (with keys com, quota)."""
    m, b, w, com, quota = case["m"], case["b"], case["w"], case["com"], case["quota"]
    new = dict(case)
    if rel == "voters":
        perm = rng.sample(range(len(b)), len(b))
        new.update(b=[b[i] for i in perm], w=[w[i] for i in perm])
    elif rel == "candidates":
        perm = rng.sample(range(m), m)
        new.update(b=[[perm[c] for c in x] for x in b], com=[perm[c] for c in com])
    elif rel == "copies":  # needs integer weights
        if all("/" not in x for x in w) and sum(map(int, w)) <= 150:
            new.update(b=[x for x, y in zip(b, w) for _ in range(int(y))],
                       w=["1"] * sum(map(int, w)))
    elif rel == "merge":
        weight = {}
        for x, y in zip(b, w):
            key = tuple(sorted(x))
            weight[key] = weight.get(key, 0) + Fraction(y)
        new.update(b=[list(x) for x in weight], w=[str(y) for y in weight.values()])
    elif rel == "split":  # a voter is replaced by two voters with the same ballot
        i = rng.randrange(len(b))
        part = Fraction(w[i]) * rng.choice([Fraction(1, 2), Fraction(1, 3), Fraction(1, 4)])
        new.update(b=b + [b[i]],
                   w=w[:i] + [str(Fraction(w[i]) - part)] + w[i + 1:] + [str(part)])
    elif rel == "scale":
        f = rng.choice([2, 3, 10, Fraction(1, 2), Fraction(1, 3)])
        new.update(w=[str(Fraction(x) * f) for x in w],
                   quota=None if quota is None else str(Fraction(quota) * f))
    elif rel == "empty voters":
        num = rng.randint(1, 3)
        at = rng.randint(0, len(b))
        new.update(b=b[:at] + [[]] * num + b[at:], w=w[:at] + ["1"] * num + w[at:])
        if case["prop"] in axioms.WITH_QUOTA and quota is None:
            new["quota"] = str(sum(map(Fraction, w)) / len(com))  # the quota before
    elif rel == "unapproved":
        shift = rng.choice([0, 1])  # as last or as first candidate
        new.update(m=m + 1, b=[[c + shift for c in x] for x in b], com=[c + shift for c in com])
    elif rel == "quota":
        total = sum(map(Fraction, w))
        q = Fraction(quota) if quota is not None else total / len(com)
        new["quota"] = str(q + rng.choice([Fraction(1, 7), 1, q, q / 3]))
    elif rel == "clone":
        outside = [c for c in range(m) if c not in com]
        if outside:
            c = rng.choice(outside)
            new.update(m=m + 1, b=[x + [m] if c in x else x for x in b])
    elif rel == "approve":
        i = rng.randrange(len(b))
        new["b"] = b[:i] + [sorted({*b[i], rng.choice(com)})] + b[i + 1:]
    return new


def call(case, algo, names=None, kind=list):
    profile = gen.build(case, cand_names=names)
    before = [(sorted(v.approved), v.weight) for v in profile]
    com = kind(case["com"])
    got = axcheck.run(case["prop"], profile, com, case["quota"], algo)
    require(isinstance(got, bool), lambda: f"check({case['prop']!r}) returns {got!r}")
    require([(sorted(v.approved), v.weight) for v in profile] == before,
            lambda: f"check({case['prop']!r}, {case['com']}, algorithm={algo}) changed the profile")
    require(com == kind(case["com"]), lambda: f"check({case['prop']!r}) changed the committee")
    return got


def check(case, ctx):
    from abcvoting.misc import CandidateSet

    rng = random.Random(case["seed"])
    prop, algo, algo2 = case["prop"], case["algo"], case["algo2"]
    base = call(case, algo)
    for rel in case["relations"]:
        new = transform(case, rel, rng)
        kind, names = list, None
        if rel == "container":
            new["com"] = rng.sample(case["com"], len(case["com"]))
            kind = rng.choice([tuple, set, CandidateSet, list])
        elif rel == "names":
            names = [f"n{rng.randint(0, 9)}" for _ in range(case["m"])]
        elif rel == "again":
            others = ALL if len(case["b"]) <= 15 else ["jr", "ejr+"]  # within the licence's limits
            axcheck.run(rng.choice(others), gen.build(case),
                        rng.sample(range(case["m"]), len(case["com"])))
        got = call(new, algo2, names, kind)
        if rel in ("quota", "approve"):  # can only help
            ok = got or not base
        else:
            ok = got == base
        require(ok, lambda: f"check({prop!r}, {case['com']}, quota={case['quota']}, algorithm={algo}) "
                            f"is {base}, but {got} (algorithm={algo2}) after {rel!r}: "
                            f"{ {k: new[k] for k in ('m', 'b', 'w', 'com', 'quota')} }")
        ctx.label(rel)
    ctx.label(f"{prop}: {base}")
    ctx.nontrivial(len(case["com"]) < case["m"])


@st.composite
def add_relations(draw, cases, num):
    case = dict(draw(cases))
    case.pop("float", None)
    algos = axioms.ALGORITHMS[case["prop"]]
    case["algo"], case["algo2"] = draw(st.sampled_from(algos)), draw(st.sampled_from(algos))
    case["relations"] = draw(st.lists(st.sampled_from(relations(case["prop"])), min_size=1,
                                      max_size=num, unique=True))
    case["seed"] = draw(st.integers(0, 2**20))
    return case


ALL = sorted(axioms.REFERENCE)
FACETS = [
    Facet("small", add_relations(axcheck.cases((6, 7), ALL), 4), check, 5000, 100000,
          "up to 6 (sometimes 12) candidates, 7 voters, 1-4 relations; non-trivial: some candidate "
          "is not in the committee"),
    Facet("large", add_relations(axcheck.large_cases(("pareto", "core", "pjr", "ejr", "fjr"), (6, 9),
                                                     (12, 50), (2, 5)), 3), check, 600, 15000,
          "up to 9 candidates, 50 voters", min_shard=20, minimise=True),
    Facet("large-polynomial", add_relations(axcheck.large_cases(("jr", "ejr+"), (8, 50), (50, 300),
                                                                (2, 15)), 3), check, 500, 12000,
          "JR and EJR+ with up to 50 candidates, 300 voters", min_shard=20, minimise=True),
]
