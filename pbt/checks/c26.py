"""C26: Preflib ordinal and categorical files are read as documented."""

import os
import random
import tempfile

from hypothesis import strategies as st

from pbt import preflib
from pbt.core import Facet, expect_raises, require, sut

RULE = ("Files generated from an abstract description (extension, candidate identifiers and names, "
        "ballot lines with ties, empty categories, multiplicities); reading them with any setsize / "
        "top_ranks / use_weights is compared with the meaning of the description.")
TECHNIQUE = "property-based testing (Hypothesis): grammar-based file generation, reference reader"


@st.composite
def cases(draw):
    spec = draw(preflib.files())
    mode = draw(st.sampled_from(["default", "top_ranks", "top_ranks", "setsize", "setsize"]))
    m = len(spec["alts"])
    return {
        "spec": spec, "mode": mode, "weights": draw(st.booleans()),
        "value": None if mode == "default" else draw(st.integers(1, m + 1)),
    }


def check_read(case, ctx):
    from abcvoting import fileio

    spec = case["spec"]
    kwargs = {} if case["mode"] == "default" else {case["mode"]: case["value"]}
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "x." + spec["ext"])
        with open(path, "w", encoding="utf-8") as fh:
            fh.write(preflib.text_of(spec))
        profile = sut("read_preflib_file", fileio.read_preflib_file, path,
                      use_weights=case["weights"], **kwargs)
    want = []
    for count, groups in spec["lines"]:
        ballot = preflib.approved(spec, groups, **kwargs)
        want += [(ballot, count)] if case["weights"] else [(ballot, 1)] * count
    got = [(set(v.approved), v.weight) for v in profile]
    require(got == want, lambda: f"{spec['ext']} {kwargs} use_weights={case['weights']}: voters "
                                 f"{got}, expected {want}")
    require(profile.num_cand == len(spec["alts"]), f"num_cand is {profile.num_cand}")
    expected_names = [name for _, name in spec["alts"]]
    require(list(profile.cand_names) == expected_names,
            lambda: f"names {profile.cand_names}, expected {expected_names}")
    require(all(type(c) is int for v in profile for c in v.approved), "candidates are not ints")
    ctx.label(spec["ext"])
    ctx.label(case["mode"])
    ctx.label("weights" if case["weights"] else "voters")
    ctx.nontrivial(any(0 < len(b) < len(spec["alts"]) for b, _ in want))


def check_params(case, ctx):
    """Parameters that cannot be honoured are rejected with ValueError."""
    from abcvoting import fileio

    spec = case["spec"]
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "x." + spec["ext"])
        with open(path, "w", encoding="utf-8") as fh:
            fh.write(preflib.text_of(spec))
        expect_raises(f"top_ranks={case['a']}, setsize={case['b']}", ValueError,
                      fileio.read_preflib_file, path, top_ranks=case["a"], setsize=case["b"])
    ctx.nontrivial()


@st.composite
def param_cases(draw):
    a, b = draw(st.one_of(
        st.tuples(st.integers(1, 3), st.integers(1, 3)),
        st.tuples(st.integers(-2, 0), st.none()),
        st.tuples(st.none(), st.integers(-2, 0)),
    ))
    return {"spec": draw(preflib.files(max_m=3, max_lines=2, simple=True)), "a": a, "b": b}


@st.composite
def large_cases(draw):
    rng = random.Random(draw(st.integers(0, 2**48)))
    spec = preflib.large_file(rng)
    mode = rng.choice(["default", "top_ranks", "top_ranks", "setsize", "setsize", "setsize"])
    weights = rng.random() < 0.5
    if weights:
        for line in spec["lines"]:
            line[0] *= rng.choice([1, 7, 1000, 123457])
    m = len(spec["alts"])
    value = rng.choice([rng.randint(1, m), rng.randint(1, min(m, 8)), m])
    return {"spec": spec, "mode": mode, "weights": weights,
            "value": None if mode == "default" else value}


FACETS = [
    Facet("read", cases(), check_read, 12000, 300000,
          "files with up to 6 candidates and 5 lines; non-trivial: some ballot is neither "
          "empty nor full"),
    Facet("large", large_cases(), check_read, 400, 12000,
          "7-60 candidates, up to 100 lines, up to 30 categories, counts up to 10^6", min_shard=40),
    Facet("params", param_cases(), check_params, 400, 4000, "invalid parameter combinations"),
]
