"""Generated Preflib files: an abstract description, its text, and what it means."""

from hypothesis import strategies as st

PLAIN = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJ0123456789"
names = st.one_of(
    st.text(PLAIN, min_size=1, max_size=6),
    st.text(st.characters(codec="utf-8", categories=("L", "N", "P", "S")), min_size=1, max_size=8),
    st.sampled_from(["a b", "# x", "Dr. X: Y", "{1,2}", "1", "äöü", "ALTERNATIVE NAME 1: x", "漢 字",
                     "a, b", "'", '"', "yes", "null", "- a", "%s", "\\n"]),
)


@st.composite
def files(draw, max_m=6, max_lines=5, exts=("soc", "soi", "toc", "toi", "cat"), simple=False):
    """{"ext", "alts": [[id, name], ...], "lines": [[count, [[ids], ...]], ...], "space": bool}"""
    ext = draw(st.sampled_from(list(exts)))
    m = draw(st.integers(1, max_m))
    style = draw(st.integers(0, 3))
    if style == 0:
        ids = draw(st.permutations(range(1, m + 1)))
    elif style == 1:
        ids = draw(st.lists(st.integers(1, 40), min_size=m, max_size=m, unique=True))
    else:
        ids = list(range(1, m + 1))
    alts = [[i, f"c{i}" if simple else draw(names)] for i in ids]
    numcat = draw(st.integers(1, 4))
    lines, seen = [], set()
    for _ in range(draw(st.integers(1, max_lines))):
        perm = list(draw(st.permutations(ids)))
        if ext in ("soi", "toi"):
            perm = perm[: draw(st.integers(1, m))]
        if ext in ("soc", "soi"):
            groups = [[c] for c in perm]
        elif ext in ("toc", "toi"):
            groups = [[perm[0]]]
            for c in perm[1:]:
                if draw(st.booleans()):
                    groups.append([c])
                else:
                    groups[-1].append(c)
        else:
            groups = [[] for _ in range(numcat)]
            for c in perm:
                groups[draw(st.integers(0, numcat - 1))].append(c)
        key = repr(groups)
        if key in seen:
            continue
        seen.add(key)
        lines.append([draw(st.sampled_from([1, 1, 2, 3, 5, 12])), groups])
    return {"ext": ext, "alts": alts, "lines": lines, "numcat": numcat,
            "space": draw(st.booleans())}


def large_file(rng, max_m=60, max_lines=100):
    """As files(), of realistic size (rng: random.Random)."""
    ext = rng.choice(["soc", "soi", "toc", "toi", "cat", "cat"])
    m = rng.randint(7, max_m)
    ids = list(range(1, m + 1))
    if rng.random() < 0.4:
        rng.shuffle(ids)
    elif rng.random() < 0.3:
        ids = rng.sample(range(1, 5000), m)
    alts = [[i, rng.choice([f"c{i}", f"Candidate {i}", f"{i}", "x"])] for i in ids]
    numcat = rng.randint(1, 30)
    tie = rng.choice([0.1, 0.5, 0.9])
    lines, seen = [], set()
    for _ in range(rng.randint(1, max_lines)):
        perm = rng.sample(ids, m if ext in ("soc", "toc", "cat") else rng.randint(1, m))
        if ext in ("soc", "soi"):
            groups = [[c] for c in perm]
        elif ext in ("toc", "toi"):
            groups = [[perm[0]]]
            for c in perm[1:]:
                if rng.random() < tie:
                    groups[-1].append(c)
                else:
                    groups.append([c])
        else:
            groups = [[] for _ in range(numcat)]
            for c in perm:
                groups[rng.randrange(numcat)].append(c)
        if repr(groups) not in seen:
            seen.add(repr(groups))
            lines.append([rng.randint(1, 60), groups])
    return {"ext": ext, "alts": alts, "lines": lines, "numcat": numcat,
            "space": rng.random() < 0.5}


def text_of(spec):
    sep = ", " if spec["space"] else ","
    total = sum(count for count, _ in spec["lines"])
    out = [
        "# FILE NAME: x." + spec["ext"], "# TITLE: generated", "# DESCRIPTION: ",
        "# DATA TYPE: " + spec["ext"], "# MODIFICATION TYPE: synthetic", "# RELATES TO: ",
        "# RELATED FILES: ", "# PUBLICATION DATE: 2024-01-01", "# MODIFICATION DATE: 2024-01-01",
        f"# NUMBER ALTERNATIVES: {len(spec['alts'])}", f"# NUMBER VOTERS: {total}",
    ]
    if spec["ext"] == "cat":
        out.append(f"# NUMBER UNIQUE PREFERENCES: {len(spec['lines'])}")
        out.append(f"# NUMBER CATEGORIES: {spec['numcat']}")
        out += [f"# CATEGORY NAME {i + 1}: cat{i + 1}" for i in range(spec["numcat"])]
    else:
        out.append(f"# NUMBER UNIQUE ORDERS: {len(spec['lines'])}")
    out += [f"# ALTERNATIVE NAME {i}: {name}" for i, name in spec["alts"]]
    for count, groups in spec["lines"]:
        cells = [
            str(g[0]) if len(g) == 1 else "{" + sep.join(map(str, g)) + "}" for g in groups
        ]
        out.append(f"{count}:{' ' if spec['space'] else ''}" + sep.join(cells))
    return "\n".join(out) + "\n"


def approved(spec, groups, top_ranks=None, setsize=None):
    """The documented meaning of a ballot line, as a set of candidate numbers."""
    index = {alt: pos for pos, (alt, _) in enumerate(spec["alts"])}
    if setsize is None:
        return {index[c] for g in groups[: top_ranks or 1] for c in g}
    chosen = set()
    for g in groups:
        if len(chosen) >= setsize:
            break
        chosen |= {index[c] for c in g}
    if 0 < len(chosen) < setsize:
        return set(index.values())
    return chosen
