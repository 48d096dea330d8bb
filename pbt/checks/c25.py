"""C25: Preflib files survive a write/read round trip."""

import collections
import os
import random
import tempfile
from fractions import Fraction

from hypothesis import strategies as st

from pbt import gen, preflib
from pbt.core import Facet, require, sut

RULE = ("Round trip write -> read (with and without weights) of generated profiles with integer "
        "weights of several types and arbitrary (single-line, stripped) candidate names.")
TECHNIQUE = "property-based testing (Hypothesis): round trip"
ASSUMPTIONS = ["candidate names are non-empty single lines without surrounding white space (the "
               "format cannot represent others)",
               "weights are integers (the format stores counts)", "at least one voter"]


@st.composite
def cases(draw):
    case = draw(gen.instances(max_m=6, max_n=8, modes=("unit", "int", "small-int"), wide=True))
    case["names"] = draw(st.one_of(st.none(), st.lists(
        preflib.names.filter(lambda s: s == s.strip() and s), min_size=case["m"],
        max_size=case["m"])))
    case["wtype"] = draw(st.sampled_from(["int", "int", "float", "Fraction", "numpy"]))
    case["file"] = draw(st.sampled_from(["x.cat", "x.cat", "x", "two words.cat", "a.b.cat"]))
    case["order"] = draw(st.booleans())
    return case


def check(case, ctx):
    import numpy as np
    from abcvoting import fileio
    from abcvoting.preferences import Profile, Voter

    convert = {"int": int, "float": float, "Fraction": Fraction, "numpy": np.int64}[case["wtype"]]
    profile = Profile(case["m"], cand_names=case["names"])
    want = collections.Counter()
    for ballot, w in zip(case["b"], case["w"]):
        approved = list(reversed(ballot)) if case["order"] else ballot
        profile.add_voter(Voter(approved, weight=convert(int(w))))
        want[tuple(ballot)] += int(w)
    names = [str(x) for x in profile.cand_names]
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, case["file"])
        sut("write", fileio.write_profile_to_preflib_cat_file, path, profile)
        if "." not in case["file"]:
            path += ".cat"
        require(os.listdir(tmp) == [os.path.basename(path)], lambda: f"files {os.listdir(tmp)}")
        for use_weights in (False, True):
            got = sut(f"read use_weights={use_weights}", fileio.read_preflib_file, path,
                      use_weights=use_weights)
            where = f"use_weights={use_weights}"
            require(got.num_cand == case["m"], f"{where}: num_cand {got.num_cand}")
            require(list(got.cand_names) == names,
                    lambda: f"{where}: names {got.cand_names}, expected {names}")
            have = collections.Counter()
            for v in got:
                have[tuple(sorted(v.approved))] += v.weight
            require(have == want, lambda: f"{where}: weights {dict(have)}, expected {dict(want)}")
            if use_weights:
                require(len(got) <= len(profile), f"{where}: more ballots than in the profile")
            else:
                require(got.has_unit_weights() and len(got) == sum(want.values()),
                        f"{where}: voters do not have unit weights")
        # writing what has been read gives the same profile again
        second = os.path.join(tmp, "y.cat")
        sut("second write", fileio.write_profile_to_preflib_cat_file, second, got)
        again = sut("second read", fileio.read_preflib_file, second, use_weights=True)
        have = collections.Counter()
        for v in again:
            have[tuple(sorted(v.approved))] += v.weight
        require(have == want and list(again.cand_names) == names,
                lambda: f"second round trip: {dict(have)}, expected {dict(want)}")
    ctx.label("weights: " + case["wtype"])
    ctx.label("default names" if case["names"] is None else "names")
    ctx.nontrivial(len(want) > 1)


@st.composite
def large_cases(draw):
    rng = random.Random(draw(st.integers(0, 2**48)))
    case = gen.large_file_case(rng, (12, 130), (30, 400), ("unit", "int", "wide"))
    m = case["m"]
    case["names"] = rng.choice([None, [f"c{m - i}" for i in range(m)], ["same"] * m])
    return dict(case, wtype=rng.choice(["int", "float", "Fraction", "numpy"]), file="x.cat",
                order=rng.random() < 0.5)


FACETS = [
    Facet("roundtrip", cases(), check, 6000, 120000,
          "profiles with up to 12 candidates and 8 voters; non-trivial: at least two different "
          "ballots"),
    Facet("large", large_cases(), check, 100, 3000,
          "12-130 candidates, 30-400 voters, weights up to 1000", min_shard=12, minimise=True),
]
