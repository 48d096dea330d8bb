"""C23: invalid approval data never enters a profile."""

from fractions import Fraction

from hypothesis import strategies as st

from pbt.core import Facet, Violation, require

RULE = ("Arbitrary (mostly almost valid) arguments for CandidateSet, Voter, Profile, add_voter, "
        "add_voters and profile[i]; accepted exactly if a direct definition says valid.")
TECHNIQUE = "property-based testing (Hypothesis): fuzzing of constructors against a validity oracle"

# values are encoded as JSON: [type, value]
elements = st.one_of(
    st.tuples(st.just("int"), st.integers(0, 4)),
    st.tuples(st.just("int"), st.integers(0, 4)),
    st.tuples(st.just("int"), st.integers(0, 4)),
    st.tuples(st.just("int"), st.sampled_from([-1, -2, 5, 6, 7, 10, 100, 2**40])),
    st.tuples(st.just("np"), st.integers(0, 6)),
    st.tuples(st.sampled_from(["float", "str", "none", "frac", "tuple", "complex"]),
              st.integers(0, 4)),
)
weight_values = st.one_of(
    st.tuples(st.just("int"), st.sampled_from([1, 1, 1, 2, 3, 100])),
    st.tuples(st.just("frac"), st.sampled_from(["1/2", "7/3", "0", "-1/2"])),
    st.tuples(st.just("float"), st.sampled_from([0.5, 1.0, 0.0, -0.5, "nan"])),
    st.tuples(st.just("int"), st.sampled_from([0, -1, -10])),
    st.tuples(st.just("str"), st.just("1")),
    st.tuples(st.just("none"), st.just(0)),
)


def lists(data):
    if isinstance(data, tuple):
        return [lists(x) for x in data]
    if isinstance(data, list):
        return [lists(x) for x in data]
    return data


@st.composite
def cases(draw):
    container = st.sampled_from(["list", "list", "tuple", "set", "dict", "frozenset", "candset"])
    approvals = st.tuples(container, st.lists(elements, max_size=5))
    clean = st.tuples(container, st.lists(st.tuples(st.just("int"), st.integers(0, 4)),
                                          max_size=5, unique=True))
    step = st.one_of(
        st.tuples(st.just("add"), st.one_of(approvals, clean), st.none()),
        st.tuples(st.just("addvoter"), st.one_of(approvals, clean), weight_values),
        st.tuples(st.just("set"), st.one_of(approvals, clean), st.integers(0, 3)),
        st.tuples(st.just("setvoter"), st.one_of(approvals, clean, clean), st.tuples(
            st.integers(0, 3), weight_values)),
        st.tuples(st.just("many"), st.lists(st.one_of(approvals, clean, clean), max_size=4),
                  st.none()),
        st.tuples(st.just("candset"), st.one_of(approvals, clean),
                  st.sampled_from([None, 1, 3, 5])),
        st.tuples(st.just("garbage"), st.sampled_from(
            ["none", "int", "str", "float", "nested", "object"]), st.none()),
    )
    return {
        "num_cand": draw(st.sampled_from([5, 5, 5, 5, 3, 1, 6, 11, 101, 0, -1])),
        "names": draw(st.sampled_from([None, None, "abcdefgh", "ab", ["x"] * 5])),
        "steps": lists(draw(st.lists(step, min_size=1, max_size=6))),
    }


def decode(item):
    import numpy as np

    kind, value = item
    if kind == "int":
        return value
    if kind == "np":
        return np.int64(value)
    if kind == "float":
        return float(value)
    if kind == "str":
        return str(value)
    if kind == "none":
        return None
    if kind == "frac":
        return Fraction(value)
    if kind == "tuple":
        return (value,)
    if kind == "complex":
        return complex(value, 1)
    raise ValueError(kind)


def integral(x):
    import numpy as np

    return isinstance(x, (int, np.integer))


def container(spec):
    """(python object, elements, valid as CandidateSet); constructing may already fail."""
    from abcvoting.misc import CandidateSet

    kind, items = spec
    values = [decode(x) for x in items]
    if kind == "candset":
        if not valid(values, None):
            kind = "list"
        else:
            return CandidateSet(values), values
    if kind in ("set", "frozenset", "dict"):
        values = list(dict.fromkeys(values))
    obj = {"list": list, "tuple": tuple, "set": set, "frozenset": frozenset,
           "dict": dict.fromkeys}[kind](values)
    return obj, values


def valid(values, num_cand):
    if not all(integral(x) for x in values):
        return False
    if any(x < 0 for x in values) or len(set(values)) != len(values):
        return False
    return num_cand is None or all(x < num_cand for x in values)


def state(profile):
    return [(frozenset(v.approved), v.weight) for v in profile]


def attempt(what, ok, fct, *args, **kwargs):
    """Call must succeed iff ok; otherwise TypeError or ValueError."""
    try:
        res = fct(*args, **kwargs)
    except (TypeError, ValueError) as exc:
        require(not ok, lambda: f"{what}: valid data rejected with {type(exc).__name__}: {exc}")
        return None
    except Exception as exc:
        raise Violation(f"{what}: raised {type(exc).__name__}: {exc}") from exc
    require(ok, lambda: f"{what}: invalid data accepted")
    return True if res is None else res


def check(case, ctx):
    from abcvoting.misc import CandidateSet
    from abcvoting.preferences import Profile, Voter

    m, names = case["num_cand"], case["names"]
    ok = m > 0 and (names is None or len(names) >= m)
    kw = {} if names is None else {"cand_names": names}
    profile = attempt(f"Profile({m}, {kw})", ok, Profile, m, **kw)
    accepted = rejected = 0
    if profile is None:
        profile, m = Profile(5), 5
        rejected += 1
    model = []
    for num, (kind, spec, extra) in enumerate(case["steps"]):
        what = f"step {num}: {kind} {spec} {extra} on a profile with {m} candidates"
        before = list(model)
        if kind == "add":
            obj, values = container(spec)
            good = valid(values, m)
            attempt(what, good, profile.add_voter, obj)
            if good:
                model.append((frozenset(values), 1))
        elif kind == "addvoter":
            obj, values = container(spec)
            weight = float("nan") if extra == ["float", "nan"] else decode(extra)
            wok = not isinstance(weight, (str, type(None))) and weight > 0
            voter = attempt(what + " (Voter)", wok and valid(values, None), Voter, obj,
                            weight=weight)
            attempt(what + " (Voter with num_cand)", wok and valid(values, m), Voter, obj,
                    weight=weight, num_cand=m)
            good = voter is not None and valid(values, m)
            if voter is not None:
                require(frozenset(voter.approved) == frozenset(values) and voter.weight == weight,
                        lambda: f"{what}: wrong Voter {voter} {voter.weight}")
                attempt(what, good, profile.add_voter, voter)
            if good:
                model.append((frozenset(values), weight))
        elif kind == "set":
            obj, values = container(spec)
            good = valid(values, m)
            if model:
                attempt(what, good, profile.__setitem__, extra % len(model), obj)
                if good:
                    model[extra % len(model)] = (frozenset(values), 1)
        elif kind == "setvoter":
            obj, values = container(spec)
            weight = float("nan") if extra[1] == ["float", "nan"] else decode(extra[1])
            wok = not isinstance(weight, (str, type(None))) and weight > 0
            voter = attempt(what + " (Voter)", wok and valid(values, None), Voter, obj,
                            weight=weight)
            good = voter is not None and valid(values, m)
            if model and voter is not None:
                attempt(what, good, profile.__setitem__, extra[0] % len(model), voter)
                if good:
                    model[extra[0] % len(model)] = (frozenset(values), weight)
        elif kind == "many":
            objs = [container(x) for x in spec]
            objs = [(Voter(o) if i % 2 and valid(v, None) else o, v)
                    for i, (o, v) in enumerate(objs)]
            good = all(valid(v, m) for _, v in objs)
            attempt(what, good, profile.add_voters, [o for o, _ in objs])
            if good:
                model.extend((frozenset(v), 1) for _, v in objs)
            else:  # a prefix of the valid voters may have been added
                got = state(profile)
                stop = next(i for i, (_, v) in enumerate(objs) if not valid(v, m))
                options = [model + [(frozenset(v), 1) for _, v in objs[:i]]
                           for i in range(stop + 1)]
                require(got in options, lambda: f"{what}: profile is {got} afterwards")
                model = got
        elif kind == "candset":
            obj, values = container(spec)
            good = valid(values, extra)
            kw = {} if extra is None else {"num_cand": extra}
            res = attempt(what, good, CandidateSet, obj, **kw)
            if res is not None:
                require(isinstance(res, CandidateSet) and set(res) == set(values),
                        lambda: f"{what}: {res}")
        else:
            obj = {"none": None, "int": 3, "str": "01", "float": 1.5, "nested": [[0, 1]],
                   "object": object()}[spec]
            good = False
            attempt(what, False, profile.add_voter, obj)
            attempt(what, False, Voter, obj)
            attempt(what, False, CandidateSet, obj)
        got = state(profile)
        require(got == model, lambda: f"{what}: profile is {got}, expected {model} "
                                      f"(before: {before})")
        if good:
            accepted += 1
        else:
            rejected += 1
    ctx.label("rejections %d" % min(rejected, 3))
    ctx.nontrivial(rejected > 0 and accepted > 0)


FACETS = [
    Facet("constructors", cases(), check, 12000, 300000,
          "up to six constructor/insertion attempts; non-trivial: at least one accepted and one "
          "rejected"),
]
