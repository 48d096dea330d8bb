"""C05: AV and SAV return exactly the committees with maximum total score."""

from hypothesis import strategies as st

from pbt import gen, savfloat
from pbt.core import Facet
from pbt.exact import check_exact, facet, pairs
from pbt.large import large_facet

RULE = "Winner sets compared with exhaustive exact (rational) maximisation over all committees."


@st.composite
def near_ties(draw):
    """Ballots of many different sizes: SAV scores that are equal only as exact fractions."""
    m = draw(st.integers(2, 9))
    n = draw(st.integers(2, 14))
    sizes = draw(st.lists(st.integers(1, m), min_size=n, max_size=n))
    b = []
    for s in sizes:
        first = draw(st.integers(0, 2))
        members = {(first + i) % m for i in range(s)}
        b.append(sorted(members))
    w = draw(st.sampled_from([["1"] * n, None]))
    if w is None:
        w = draw(gen.weights(n, draw(st.sampled_from(["int", "frac", "big"]))))
    return {"m": m, "b": b, "w": w, "k": draw(st.integers(1, m)), "algo": "standard",
            "rule": draw(st.sampled_from(["sav", "sav", "av"]))}


FACETS = [
    facet("random", ["av", "sav"], 16000, 300000, size=(7, 9, 7)),
    facet("larger", ["av", "sav"], 3000, 60000, size=(11, 40, 6), wide=False),
    Facet("near-ties", near_ties(), check_exact, 12000, 300000,
          "cyclic interval ballots of many sizes: scores that are equal only as exact fractions; "
          "non-trivial: not every committee of size k wins",
          corpus=[savfloat.MISSED_TIE]),
    large_facet("large", pairs(["av", "sav"], False), 3000, 60000, (10, 40), (20, 150), (2, 15)),
    large_facet("huge", pairs(["av", "sav"], False), 300, 6000, (60, 200), (200, 1500), (5, 60)),
]
