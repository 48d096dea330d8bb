"""C22: profiles behave like lists of weighted approval sets under any history."""

import collections
import copy
import pickle
import random
from fractions import Fraction

from hypothesis import strategies as st

from pbt import gen
from pbt.core import Facet, expect_raises, require, sut
from pbt.gen import to_weight

RULE = ("Model-based testing of operation histories over several live profiles; the model is a list "
        "of (approval set, weight) pairs per profile, compared after every operation.")
TECHNIQUE = "stateful model-based property testing (generated operation histories)"

WEIGHTS = ["1", "1", "1", "2", "3", "10", "1/2", "1/3", "5/2"]
OPS = ["add_list", "add_tuple", "add_set", "add_candset", "add_voter", "add_voter", "add_shared",
       "add_many", "set_list", "set_voter", "to_unit", "to_weighted", "copy", "copy.copy",
       "deepcopy", "pickle", "extend_from", "extend_self", "add_again", "add_again", "mutate_weight",
       "shift_weight", "mutate_set", "rename", "switch", "reset"]


@st.composite
def histories(draw, max_ops):
    m = draw(st.one_of(st.integers(1, 6), st.integers(9, 12)))
    ballot = st.lists(st.integers(0, m - 1), max_size=min(m, 4), unique=True)
    if m > 8:  # small integers that collide in a set: iteration depends on the order of insertion
        ballot = st.one_of(ballot, st.permutations([c for c in (0, 1, 8, 9) if c < m]).map(
            lambda x: x[:3]), st.permutations([0, 8]))
    op = st.fixed_dictionaries({
        "op": st.sampled_from(OPS),
        "b": ballot,
        "more": st.lists(ballot, max_size=3),
        "w": st.sampled_from(WEIGHTS),
        "i": st.integers(0, 20),
    })
    names = draw(st.sampled_from([None, "lower", "reverse", "long", "dup"]))
    return {"m": m, "names": names, "ops": draw(st.lists(op, min_size=1 if max_ops < 20 else 10, max_size=max_ops))}


def make_names(kind, m):
    if kind is None:
        return None
    return {
        "lower": "abcdefghijklmnop",
        "reverse": "ponmlkjihgfedcba",
        "long": [f"cand. no {i}, {'x' * i}" for i in range(m)],
        "dup": ["q"] * m,
    }[kind]


def names_of(kind, m):
    names = make_names(kind, m)
    return [str(i) for i in range(m)] if names is None else [names[i] for i in range(m)]


def text(ballot, names):
    return "{" + ", ".join(sorted(names[c] for c in ballot)) + "}"


def verify(profile, model, m, names, where):
    from abcvoting.misc import CandidateSet

    got = [(frozenset(v.approved), v.weight) for v in profile]
    require(got == model, lambda: f"{where}: voters are {got}, expected {model}")
    require(len(profile) == len(model), lambda: f"{where}: len is {len(profile)}")
    for i, (b, w) in enumerate(model):
        for j in (i, i - len(model)):
            require(frozenset(profile[j].approved) == b and profile[j].weight == w,
                    lambda: f"{where}: profile[{j}] is {profile[j]}")
        require(isinstance(profile[i].approved, CandidateSet),
                lambda: f"{where}: approval set is a {type(profile[i].approved)}")
        require(str(profile[i]) == text(b, [str(c) for c in range(m)]),
                lambda: f"{where}: str(voter) is {profile[i]}")
        require(profile[i].str_with_names(names) == text(b, names),
                lambda: f"{where}: str_with_names is {profile[i].str_with_names(names)}")
    total = sum((Fraction(w) for _, w in model), Fraction(0))
    require(profile.total_weight() == total,
            lambda: f"{where}: total_weight() is {profile.total_weight()}, expected {total}")
    unit = all(w == 1 for _, w in model)
    require(profile.has_unit_weights() is unit or profile.has_unit_weights() == unit,
            lambda: f"{where}: has_unit_weights() is {profile.has_unit_weights()}")
    approved = set().union(*(b for b, _ in model)) if model else set()
    require(profile.approved_candidates() == approved,
            lambda: f"{where}: approved_candidates() is {profile.approved_candidates()}")
    party = all(a == b or not a & b for a, _ in model for b, _ in model)
    require(bool(profile.is_party_list()) == party,
            lambda: f"{where}: is_party_list() is {profile.is_party_list()}")
    require(profile.num_cand == m and list(profile.candidates) == list(range(m)),
            lambda: f"{where}: candidates {profile.candidates}")
    require(list(profile.cand_names) == names,
            lambda: f"{where}: cand_names {profile.cand_names}, expected {names}")
    # text representations
    head = ("" if unit else "weighted ") + f"profile with {len(model)} voters and {m} candidates:"
    if not model:
        return unit, party
    lines = str(profile).split("\n")
    require(lines[0] == head, lambda: f"{where}: str(profile) starts with {lines[0]!r}")
    want = []
    for i, (b, w) in enumerate(model):
        want.append(f"voter {i}: " + ("" if unit else f"{w} * ") + text(b, names))
    have = [" ".join(x.split()).rstrip(",") for x in lines[1:]]
    require(have == [" ".join(x.split()) for x in want],
            lambda: f"{where}: str(profile) has lines {have}, expected {want}")
    count = collections.OrderedDict()
    for b, w in model:
        count[b] = count.get(b, 0) + w
    lines = profile.str_compact().rstrip("\n").split("\n")
    require(lines[0] == head, lambda: f"{where}: str_compact() starts with {lines[0]!r}")
    want = sorted(f"{w} x {text(b, names)}" for b, w in count.items())
    if not unit:
        require(lines[-1] == f"total weight: {profile.total_weight()}",
                lambda: f"{where}: str_compact() ends with {lines[-1]!r}")
        lines = lines[:-1]
    have = sorted(x.strip().rstrip(",") for x in lines[1:])
    require(have == want, lambda: f"{where}: str_compact() has lines {have}, expected {want}")
    return unit, party


def check(case, ctx):
    from abcvoting.misc import CandidateSet
    from abcvoting.preferences import Profile, Voter

    m = case["m"]
    names = names_of(case["names"], m)

    given = []

    def fresh():
        kind = make_names(case["names"], m)
        if kind is not None and len(case["ops"]) % 2:
            given.append(list(kind))  # a list that belongs to the caller
            kind = given[-1]
        return Profile(m) if kind is None else Profile(m, cand_names=kind)

    live = [[fresh(), []]]
    cur = 0
    shared = Voter(sorted({0, m - 1}), weight=2)
    for step, op in enumerate(case["ops"]):
        profile, model = live[cur]
        kind, b, w, i = op["op"], op["b"], to_weight(op["w"]), op["i"]
        where = f"after step {step} ({kind} {b} {op['more']} {op['w']} {i}) profile"
        fb = frozenset(b)
        if kind == "add_list":
            sut(where, profile.add_voter, b)
            model.append((fb, 1))
        elif kind == "add_tuple":
            sut(where, profile.add_voter, tuple(b))
            model.append((fb, 1))
        elif kind == "add_set":
            sut(where, profile.add_voter, set(b))
            model.append((fb, 1))
        elif kind == "add_candset":
            sut(where, profile.add_voter, CandidateSet(b, num_cand=m))
            model.append((fb, 1))
        elif kind == "add_voter":
            sut(where, profile.add_voter, Voter(b, weight=w, num_cand=[None, m][i % 2]))
            model.append((fb, w))
        elif kind == "add_shared":
            sut(where, profile.add_voter, shared)
            model.append((frozenset(shared.approved), 2))
        elif kind == "add_many":
            voters = [x if (i + j) % 2 else Voter(x, weight=w) for j, x in enumerate(op["more"])]
            sut(where, profile.add_voters, iter(voters) if i % 3 == 0 else voters)
            model.extend((frozenset(x), 1 if (i + j) % 2 else w)
                         for j, x in enumerate(op["more"]))
        elif kind in ("set_list", "set_voter"):
            if model:
                pos = i % len(model)
                value = b if kind == "set_list" else Voter(b, weight=w)
                idx = pos if i < 15 else pos - len(model)
                sut(where, profile.__setitem__, idx, value)
                model[pos] = (fb, 1 if kind == "set_list" else w)
            else:
                expect_raises(where, IndexError, profile.__setitem__, i, b)
        elif kind == "to_unit":
            if all(isinstance(x, int) for _, x in model):
                sut(where, profile.convert_to_unit_weights)
                model[:] = [(x, 1) for x, y in model for _ in range(y)]
            else:
                expect_raises(where, (TypeError, ValueError), profile.convert_to_unit_weights)
                ctx.label("conversion refused")
        elif kind == "to_weighted":
            sut(where, profile.convert_to_weighted)
            count = {}
            for x, y in model:
                count[x] = count.get(x, 0) + y
            got = [(frozenset(v.approved), v.weight) for v in profile]
            require(len(got) == len(count) and dict(got) == count,
                    lambda: f"{where}: {got}, expected {count}")
            if any(y == 2 for y in count.values()):
                ctx.label("merged voters")
            model[:] = got  # any order
        elif kind in ("copy", "copy.copy", "deepcopy", "pickle"):
            new = sut(where, {"copy": lambda p: p.copy(), "copy.copy": copy.copy,
                              "deepcopy": copy.deepcopy,
                              "pickle": lambda p: pickle.loads(pickle.dumps(p))}[kind], profile)
            require(isinstance(new, Profile) and new is not profile, f"{where}: not a new Profile")
            live.append([new, list(model)])
            if i % 2:
                cur = len(live) - 1
        elif kind == "extend_from":
            other, omodel = live[i % len(live)]
            if other is not profile and len(model) + len(omodel) < 60:
                sut(where, profile.add_voters, other)
                model.extend(omodel)
        elif kind == "extend_self":
            if len(model) < 25:
                sut(where, profile.add_voters, profile)
                model.extend(list(model))
        elif kind == "add_again":
            if model:
                pos = i % len(model)
                again = sorted(model[pos][0], reverse=i % 2)
                sut(where, profile.add_voter,
                    again if i % 3 else Voter(again, weight=to_weight(op["w"])))
                model.append((model[pos][0], 1 if i % 3 else w))
        elif kind == "mutate_weight":
            if model:
                profile[i % len(model)].weight = w
                model[i % len(model)] = (model[i % len(model)][0], w)
        elif kind == "shift_weight":  # keeps the total weight
            if len(model) > 1:
                pos, other = i % len(model), (i + 1) % len(model)
                delta = Fraction(model[other][1]) / 2
                for j, d in ((pos, delta), (other, -delta)):
                    new = to_weight(str(Fraction(model[j][1]) + d))
                    profile[j].weight = new
                    model[j] = (model[j][0], new)
        elif kind == "mutate_set":
            if model:
                pos = i % len(model)
                profile[pos].approved.symmetric_difference_update(fb)
                model[pos] = (model[pos][0] ^ fb, model[pos][1])
        elif kind == "rename":
            if given:  # the caller's list is not the profile's
                given[-1][i % m] = "renamed"
        elif kind == "switch":
            cur = i % len(live)
        elif kind == "reset":
            live.append([fresh(), []])
            cur = len(live) - 1
        for idx, (p, mod) in enumerate(live):
            verify(p, mod, m, names, f"{where} {idx}")
        # every voter is an object of its own
        voters = [v for p, _ in live for v in p]
        require(len({id(v) for v in voters}) == len(voters)
                and len({id(v.approved) for v in voters}) == len(voters)
                and all(v is not shared and v.approved is not shared.approved for v in voters),
                f"{where}: voters share objects")
        for i, (p, _) in enumerate(live):
            require(all(p.cand_names is not q.cand_names
                        or isinstance(p.cand_names, tuple) for q, _ in live[:i]),
                    f"{where}: profiles share the list of candidate names")
        require(set(shared.approved) == {0, m - 1} and shared.weight == 2,
                f"{where}: the voter that was added has changed")
    ctx.label("copies" if len(live) > 1 else "single profile")
    ctx.label("longest %d" % (max(len(mod) for _, mod in live) // 10 * 10))
    ctx.nontrivial(len(case["ops"]) > 2 and any(len(mod) > 1 for _, mod in live))


@st.composite
def large_histories(draw):
    """Profiles with hundreds of voters and many candidates."""
    rng = random.Random(draw(st.integers(0, 2**48)))
    m = rng.choice([rng.randint(5, 16), rng.randint(30, 150)])
    pool = [rng.sample(range(m), rng.randint(0, min(m, rng.choice([3, 12, m]))))
            for _ in range(rng.choice([3, 20, 60]))]
    weights = rng.choice([["1"], ["1", "1", "2", "3"], WEIGHTS])
    ops = [{"op": "add_many", "b": [], "more": [rng.choice(pool) for _ in range(
        rng.randint(40, 300))], "w": rng.choice(weights), "i": rng.randint(0, 20)}]
    for _ in range(rng.randint(2, 6)):
        ops.append({"op": rng.choice(OPS + ["to_unit", "to_weighted", "to_weighted"]),
                    "b": rng.choice(pool), "more": [rng.choice(pool) for _ in range(30)],
                    "w": rng.choice(weights), "i": rng.randint(0, 20)})
    names = rng.choice([None, "lower", "reverse", "long", "dup"])
    if m > 16 and names in ("lower", "reverse"):
        names = "long"
    return {"m": m, "names": names, "ops": ops}


FACETS = [
    Facet("histories", histories(12), check, 6000, 120000,
          "up to 12 operations; non-trivial: more than two operations and a profile with at least "
          "two voters"),
    Facet("long-histories", histories(40), check, 1000, 25000, "up to 40 operations"),
    Facet("large-histories", large_histories(), check, 160, 4000,
          "up to 300 (by repetition: 600) voters and 150 candidates, up to 7 operations", min_shard=20),
]
