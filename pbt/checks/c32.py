"""C32: committee helper functions satisfy their laws."""

import math
import random
from fractions import Fraction
from itertools import combinations

from hypothesis import strategies as st

from pbt import gen
from pbt.core import Facet, expect_raises, require, sut
from pbt.gen import build

RULE = ("Generated candidate sets, committee lists, profiles and numbers; results compared with "
        "the mathematical definitions.")
TECHNIQUE = "property-based testing (Hypothesis): reference model, algebraic laws"
ASSUMPTIONS = ["candidate names are unique strings",
               "for a resolute result, the expected list has no influence beyond membership"]

NAMES = ["x10", "Bob", "c2", "alice", "Zoe", "x9", "c11", "Ünal", "3rd", "D", "e", "f_g", "Q7",
         "a b", "", "z"]


def csets(m=13, size=7):
    return st.lists(st.integers(0, m - 1), unique=True, max_size=size)


def pick(kind, items):
    return {"list": list, "tuple": tuple, "set": set, "frozenset": frozenset}[kind](items)


KINDS = ["list", "tuple", "set", "frozenset"]


# --- sets of candidates -------------------------------------------------------------------


@st.composite
def set_cases(draw):
    a = draw(csets())
    b = draw(st.one_of(csets(), st.permutations(a), st.sampled_from([a, a[:-1], a[1:]])))
    return {"a": a, "b": list(b), "c": draw(csets()), "ka": draw(st.sampled_from(KINDS)),
            "kb": draw(st.sampled_from(KINDS)),
            "max": draw(st.sampled_from([None, 0, 1, 2, 3, 5, 9]))}


def check_sets(case, ctx):
    from abcvoting import misc

    a, b, c = (set(case[x]) for x in "abc")
    pa, pb = pick(case["ka"], case["a"]), pick(case["kb"], case["b"])
    d = sut("hamming", misc.hamming, pa, pb)
    require(d == len(a ^ b), lambda: f"hamming({pa}, {pb}) = {d}")
    require(sut("hamming", misc.hamming, pb, pa) == d, "hamming is not symmetric")
    got = [tuple(x) for x in sut("powerset", misc.powerset, pa, max_size=case["max"])]
    top = len(a) if case["max"] is None else case["max"]
    items = list(pa)
    want = [t for r in range(top + 1) for t in combinations(items, r)]
    require(got == want, lambda: f"powerset({pa}, {case['max']}): {got}, expected {want}")
    if case["max"] is None:
        require(len({frozenset(x) for x in got}) == 2 ** len(a), "powerset incomplete")
        if len(a) <= 5:
            require([tuple(x) for x in misc.powerset(iter(items))] == want, "powerset(iterator)")
    ctx.nontrivial(a != b and len(a) > 1)
    ctx.label("equal sets" if a == b else "different sets")


@st.composite
def large_set_cases(draw):
    """Sets for which enumerating all subsets is out of reach; hamming and bounded powersets."""
    rng = random.Random(draw(st.integers(0, 2**48)))
    m = rng.randint(14, 200)
    a = rng.sample(range(m), rng.randint(9, min(m, 45)))
    b = rng.choice([rng.sample(a, len(a)), a[:-2] + [m], rng.sample(range(m), rng.randint(0, m))])
    return {"a": a, "b": b, "c": [], "ka": rng.choice(KINDS), "kb": rng.choice(KINDS),
            "max": rng.choice([0, 1, 2, 2, 3])}


# --- formatting ---------------------------------------------------------------------------


@st.composite
def format_cases(draw):
    coms = draw(st.lists(csets(), max_size=5))
    coms += draw(st.lists(st.sampled_from(coms), max_size=1)) if coms else []
    return {"coms": coms, "names": draw(st.sampled_from([None, "list", "str"])),
            "order": draw(st.permutations(NAMES)), "kind": draw(st.sampled_from(KINDS)),
            "win": draw(st.booleans()), "none": draw(st.booleans()),
            "text": draw(st.text(alphabet="ab ü-", min_size=1, max_size=20)),
            "symbol": draw(st.sampled_from([None, "=", "-", "*", "#"]))}


def check_format(case, ctx):
    from abcvoting import misc

    coms = [pick(case["kind"], c) for c in case["coms"]]
    names, label = None, [str(i) for i in range(13)]
    if case["names"] == "list":
        names = label = list(case["order"])
    elif case["names"] == "str":
        names = label = "qwertzuiopasd"
    kw = {} if names is None else {"cand_names": names}
    lines = []
    for com, orig in zip(coms, case["coms"]):
        want = "{" + ", ".join(sorted(label[c] for c in orig)) + "}"
        got = sut("str_set_of_candidates", misc.str_set_of_candidates, com, **kw)
        require(got == want, lambda: f"str_set_of_candidates({com}, {names}): {got!r}, "
                                     f"expected {want!r}")
        cs = sut("CandidateSet", misc.CandidateSet, com)
        require(cs.str_with_names(**kw) == want, "CandidateSet.str_with_names")
        require(names is not None or str(cs) == want, "str(CandidateSet)")
        lines.append(want)
    if coms:
        want = "".join(f" {line}\n" for line in lines)
        got = sut("str_sets_of_candidates", misc.str_sets_of_candidates, coms, **kw)
        require(got == want, lambda: f"str_sets_of_candidates: {got!r}, expected {want!r}")
    arg = None if not coms and case["none"] else coms
    got = sut("str_committees_with_header", misc.str_committees_with_header, arg,
              **({"winning": case["win"]} if case["win"] or coms and case["none"] else {}), **kw)
    kind = "winning committee" if case["win"] else "committee"
    if not coms:
        require(got == f"No {kind}s", lambda: f"no committees: {got!r}")
    else:
        head = f"{len(coms)} {kind}{'s' if len(coms) > 1 else ''}:\n"
        require(got == head + want, lambda: f"str_committees_with_header: {got!r}")
    text, symbol = case["text"], case["symbol"]
    got = sut("header", misc.header, text, **({} if symbol is None else {"symbol": symbol}))
    border = (symbol or "-") * len(text)
    require(got.split("\n") == [border, text, border, ""], lambda: f"header({text!r}): {got!r}")
    ctx.nontrivial(len(coms) > 1 and any(len(c) > 1 for c in coms))
    ctx.label(f"names: {case['names']}")


# --- lists of committees ------------------------------------------------------------------


@st.composite
def list_cases(draw):
    pool = draw(st.lists(csets(13, 4), min_size=1, max_size=4))
    idx = st.lists(st.integers(0, len(pool) - 1), max_size=6)
    return {"pool": pool, "l1": draw(idx), "l2": draw(idx), "kind": draw(st.sampled_from(KINDS)),
            "resolute": draw(st.booleans()), "plain": draw(st.booleans()),
            "bad": draw(st.sampled_from([None, None, None, "l1", "l2"]))}


def check_lists(case, ctx):
    from abcvoting import misc

    pool = case["pool"]
    mk = set if case["plain"] else misc.CandidateSet
    l1 = [mk(pool[i]) for i in case["l1"]]
    l2 = [mk(reversed(pool[i]) if case["plain"] else pool[i][::-1]) for i in case["l2"]]
    s1, s2 = {frozenset(c) for c in l1}, {frozenset(c) for c in l2}
    got = sut("compare_list_of_committees", misc.compare_list_of_committees, l1, l2)
    require(got is (s1 == s2), lambda: f"compare_list_of_committees({l1}, {l2}) = {got}")
    if case["bad"]:
        broken = {"l1": l1, "l2": l2}
        broken[case["bad"]] = broken[case["bad"]] + [sorted(pool[0])]
        expect_raises("compare_list_of_committees with a list as committee", ValueError,
                      misc.compare_list_of_committees, broken["l1"], broken["l2"])
    fct = misc.verify_expected_committees_equals_actual_committees
    args = (l1, l2)
    kw = dict(actual_committees=l1, expected_committees=l2, resolute=case["resolute"])
    if not case["resolute"] and len(l1) % 2 == 0:
        del kw["resolute"]  # the default
    if case["resolute"]:
        if len(l1) != 1:
            expect_raises(f"verify{args} resolute", RuntimeError, fct, **kw)
        elif not s1 <= s2:
            expect_raises(f"verify{args} resolute", ValueError, fct, **kw)
        else:
            require(sut("verify", fct, **kw) is None, "verify returns a value")
    elif s1 != s2:
        expect_raises(f"verify{args}", (RuntimeError, ValueError), fct, **kw)
    else:
        require(sut("verify", fct, **kw) is None, "verify returns a value")
    coms = [pick(case["kind"], pool[i]) for i in case["l1"]]
    res = sut("sorted_committees", misc.sorted_committees, coms)
    require(all(isinstance(c, misc.CandidateSet) for c in res), "not CandidateSets")
    require(sorted(map(sorted, res)) == sorted(map(sorted, coms)),
            lambda: f"sorted_committees({coms}) = {res}: committees lost or changed")
    texts = [str(c) for c in res]
    require(texts == sorted(texts), lambda: f"sorted_committees({coms}) is not sorted: {texts}")
    again = sut("sorted_committees", misc.sorted_committees, reversed(coms))
    require([sorted(c) for c in again] == [sorted(c) for c in res],
            lambda: f"sorted_committees depends on the order: {res} and {again}")
    ctx.label("equal" if s1 == s2 else "subset" if s1 < s2 or s2 < s1 else "different")
    ctx.nontrivial(len(s1 | s2) > 1)


# --- candidate sets -----------------------------------------------------------------------


@st.composite
def candset_cases(draw):
    items = draw(st.lists(st.one_of(st.integers(0, 8), st.integers(0, 8), st.integers(-2, 12)),
                          max_size=6))
    if draw(st.booleans()):
        items = sorted(set(items), reverse=draw(st.booleans()))
    types = draw(st.sampled_from(["int", "int", "numpy", "float", "str"]))
    return {"items": items, "kind": draw(st.sampled_from(KINDS)), "type": types,
            "m": draw(st.sampled_from([None, 0, 1, 5, 9, 13]))}


def check_candset(case, ctx):
    import numpy as np
    from abcvoting import misc

    conv = {"int": int, "numpy": np.int64, "float": float, "str": str}[case["type"]]
    arg = pick(case["kind"], [conv(c) for c in case["items"]])
    kw = {} if case["m"] is None else {"num_cand": case["m"]}
    plain = set(case["items"])
    dup = len(arg) != len(plain)
    bad_type = case["type"] in ("float", "str") and plain
    bad = dup or any(c < 0 for c in plain) or (
        case["m"] is not None and any(c >= case["m"] for c in plain))
    what = f"CandidateSet({arg!r}, {kw})"
    if bad_type:
        expect_raises(what, (TypeError, ValueError) if bad else TypeError, misc.CandidateSet, arg,
                      **kw)
        ctx.label("wrong type")
    elif bad:
        expect_raises(what, ValueError, misc.CandidateSet, arg, **kw)
        ctx.label("duplicate" if dup else "out of range")
    else:
        cs = sut(what, misc.CandidateSet, arg, **kw)
        require(isinstance(cs, set) and cs == plain, lambda: f"{what} = {cs}")
        ctx.label("valid")
    ctx.nontrivial(len(plain) > 1)


# --- domination ---------------------------------------------------------------------------


@st.composite
def dominate_cases(draw):
    case = draw(gen.instances(max_m=7, max_n=5, modes=("unit", "int", "frac"), wide=True))
    m = case["m"]
    sub = st.sets(st.integers(0, m - 1), max_size=5)
    one = draw(sub)
    two = draw(sub)
    if draw(st.booleans()):  # similar committees
        two = set(one) ^ draw(st.sets(st.integers(0, m - 1), max_size=2))
    return dict(case, one=sorted(one), two=sorted(two), ka=draw(st.sampled_from(KINDS)),
                kb=draw(st.sampled_from(KINDS)))


def check_dominate(case, ctx):
    from abcvoting import misc

    profile = build(case)
    one, two = set(case["one"]), set(case["two"])

    def ref(x, y):
        diff = [len(set(b) & x) - len(set(b) & y) for b in case["b"]]
        return min(diff) >= 0 and max(diff) > 0

    for x, y in ((one, two), (two, one), (one, one)):
        px, py = pick(case["ka"], sorted(x)), pick(case["kb"], sorted(y))
        got = sut("dominate", misc.dominate, profile, px, py)
        require(got is ref(x, y), lambda: f"dominate({px}, {py}) = {got}, ballots {case['b']}")
        ctx.label(f"dominates: {got}")
    ctx.nontrivial(one != two)


# --- numbers ------------------------------------------------------------------------------


@st.composite
def number_cases(draw):
    n = draw(st.one_of(st.integers(-2, 40), st.integers(41, 250)))
    k = draw(st.one_of(st.integers(-2, max(n, 0) + 2), st.integers(max(-2, n - 2), n + 2)))
    x = draw(st.one_of(st.integers(-5, 5), st.floats(-1e6, 1e6), st.floats(-2, 2)))
    y = draw(st.one_of(
        st.integers(-5, 5), st.floats(-1e6, 1e6),
        st.sampled_from([1e-3, 1e-6, 1e-8, 1e-9, 1e-10, 2e-12, 5e-13, 1e-14, 0.0]).map(
            lambda e: x * (1 + e)),
        st.sampled_from([1e-6, 1e-8, 1e-10, 2e-12, 5e-13, 1e-15]).map(lambda e: x + e)))
    return {"n": n, "k": k, "x": x, "y": y}


def check_numbers(case, ctx):
    from abcvoting import misc

    n, k, x, y = case["n"], case["k"], case["x"], case["y"]
    got = sut(f"binom({n}, {k})", misc.binom, n, k)
    want = math.comb(n, k) if 0 <= k <= n else 0
    require(got == want and isinstance(got, int), lambda: f"binom({n}, {k}) = {got} != {want}")
    got = sut(f"isclose({x}, {y})", misc.isclose, x, y)
    diff = abs(Fraction(x) - Fraction(y))
    tol = max(Fraction(1, 10 ** 12) * max(abs(Fraction(x)), abs(Fraction(y))),
              Fraction(1, 10 ** 12))
    require(isinstance(got, bool), "isclose does not return a bool")
    if diff == 0 or diff < tol * Fraction(9, 10):
        require(got, lambda: f"isclose({x!r}, {y!r}) = {got}")
    elif diff > tol * Fraction(11, 10):
        require(not got, lambda: f"isclose({x!r}, {y!r}) = {got}")
    require(sut("isclose", misc.isclose, y, x) == got, "isclose is not symmetric")
    ctx.label("close" if got else "not close")
    ctx.nontrivial(0 < k < n and x != y)


FACETS = [
    Facet("sets", set_cases(), check_sets, 4000, 60000,
          "two sets of up to 7 of 13 candidates; non-trivial: different sets, more than one "
          "candidate"),
    Facet("large-sets", large_set_cases(), check_sets, 300, 6000,
          "sets of up to 200 candidates, subsets with at most 3 elements", min_shard=40),
    Facet("formatting", format_cases(), check_format, 3000, 50000,
          "up to 6 committees, names as list or string; non-trivial: several committees"),
    Facet("lists", list_cases(), check_lists, 5000, 80000,
          "two lists from a pool of up to 4 committees, with repetitions; non-trivial: at least "
          "two different committees"),
    Facet("candidate-sets", candset_cases(), check_candset, 4000, 60000,
          "valid and invalid arguments; non-trivial: at least two candidates"),
    Facet("dominate", dominate_cases(), check_dominate, 5000, 80000,
          "profiles with up to 7 (sometimes 12) candidates; non-trivial: different committees"),
    Facet("numbers", number_cases(), check_numbers, 5000, 80000,
          "binomial coefficients, closeness; non-trivial: 0 < k < n and different numbers"),
]
