"""C27: malformed or unsuitable files are rejected cleanly."""

import os
import re
import tempfile
from fractions import Fraction

from hypothesis import strategies as st

from pbt import gen, preflib
from pbt.core import Facet, Violation, describe_exc, expect_raises, require, sut

RULE = ("Well-formed Preflib / yaml files are damaged (characters, tokens and lines deleted, "
        "duplicated, swapped, replaced; truncation); reading must raise an exception or return a "
        "valid profile. Listed kinds of damage must raise MalformattedFileException. Directories "
        "with generated contents are compared with a direct listing.")
TECHNIQUE = "property-based testing (Hypothesis): mutation fuzzing of files, invariant of results"

TOKENS = ["{", "}", ",", ":", "#", "0", "-1", "1.5", "x", " ", "{}", "1,1", "[", "]", "null",
          "true", "\t", "\n", "# NUMBER ALTERNATIVES: 1", "# NUMBER ALTERNATIVES: 9",
          "# ALTERNATIVE NAME 1: z", "1: 1", "2: {1,2}", "num_cand: 1", "committeesize: 0",
          "profile: [[0]]", "99", "\u00e9", "\x00", "'", '"']


@st.composite
def mutations(draw):
    return draw(st.lists(st.fixed_dictionaries({
        "op": st.sampled_from(["delchar", "delline", "dupline", "swap", "replace", "insert",
                               "truncate", "delspan", "digit", "digit"]),
        "pos": st.integers(0, 10_000),
        "len": st.integers(1, 6),
        "tok": st.sampled_from(TOKENS),
    }), min_size=1, max_size=4))


def mutate(text, muts):
    for mut in muts:
        if not text:
            break
        pos, op = mut["pos"] % len(text), mut["op"]
        lines = text.split("\n")
        row = mut["pos"] % len(lines)
        if op == "delchar":
            text = text[:pos] + text[pos + 1:]
        elif op == "delspan":
            text = text[:pos] + text[pos + mut["len"]:]
        elif op == "delline":
            text = "\n".join(lines[:row] + lines[row + 1:])
        elif op == "dupline":
            text = "\n".join(lines[:row] + [lines[row]] + lines[row:])
        elif op == "swap":
            other = (row + mut["len"]) % len(lines)
            lines[row], lines[other] = lines[other], lines[row]
            text = "\n".join(lines)
        elif op == "replace":
            text = text[:pos] + mut["tok"] + text[pos + mut["len"]:]
        elif op == "insert":
            text = text[:pos] + mut["tok"] + text[pos:]
        elif op == "digit":
            places = [m.start() for m in re.finditer(r"\d", text)]
            if places:
                at = places[mut["pos"] % len(places)]
                text = text[:at] + str(mut["len"] * 3 % 10) + text[at + 1:]
        elif op == "truncate":
            text = text[:pos]
    return text


def harmless(text):
    """Huge numbers are legitimate, but would need huge amounts of memory."""
    return not re.search(r"[\d_]{5,}|\d[eE]\+?\d|0x", text)


def verify_profile(profile, where):
    from abcvoting.misc import CandidateSet
    from abcvoting.preferences import Profile

    require(isinstance(profile, Profile), f"{where}: {profile!r} is not a profile")
    m = profile.num_cand
    require(isinstance(m, int) and m >= 1, f"{where}: num_cand {m!r}")
    require(len(profile.cand_names) >= m, f"{where}: {profile.cand_names} for {m} candidates")
    for v in profile:
        require(isinstance(v.approved, CandidateSet)
                and all(isinstance(c, int) and 0 <= c < m for c in v.approved),
                lambda: f"{where}: approval set {v.approved!r} with {m} candidates")
        require(v.weight > 0, lambda: f"{where}: weight {v.weight!r}")


@st.composite
def preflib_cases(draw):
    return {"spec": draw(preflib.files(max_m=5, max_lines=4, simple=True)),
            "muts": draw(mutations()), "mode": draw(st.sampled_from(["ranks", "size"])),
            "value": draw(st.integers(1, 3)), "weights": draw(st.booleans())}


def _read_preflib(path, case):
    from abcvoting import fileio

    kwargs = {"top_ranks" if case["mode"] == "ranks" else "setsize": case["value"]}
    return fileio.read_preflib_file(path, use_weights=case["weights"], **kwargs)


def outcome(fct, where, ctx):
    try:
        return fct()
    except Violation:
        raise
    except Exception as exc:
        ctx.label("rejected: " + type(exc).__name__)
        return None


def check_preflib(case, ctx):
    text = preflib.text_of(case["spec"])
    damaged = mutate(text, case["muts"])
    if damaged == text or not harmless(damaged):
        ctx.label("not damaged")
        return
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "x." + case["spec"]["ext"])
        with open(path, "w", encoding="utf-8") as fh:
            fh.write(damaged)
        profile = outcome(lambda: _read_preflib(path, case), "preflib", ctx)
    if profile is not None:
        ctx.label("accepted")
        verify_profile(profile, f"reading {damaged!r}")
    ctx.nontrivial()


@st.composite
def yaml_cases(draw):
    case = draw(gen.instances(max_m=5, max_n=5, modes=("unit", "int", "frac")))
    return dict(case, muts=draw(mutations()), full=draw(st.booleans()))


def yaml_text(case):
    lines = ["profile: " + str(case["b"])]
    if not gen.unit(case):
        lines.append("voter_weights: [" + ", ".join(f"'{w}'" if "/" in w else w
                                                    for w in case["w"]) + "]")
    lines.append(f"num_cand: {case['m']}")
    if case["full"]:
        lines.append(f"committeesize: {case['k']}")
        lines.append("compute:\n- rule_id: av\n  result: [[0]]\n- {rule_id: pav, resolute: true}")
    return "\n".join(lines) + "\n"


def check_yaml(case, ctx):
    from abcvoting import fileio

    text = yaml_text(case)
    damaged = mutate(text, case["muts"])
    if damaged == text or not harmless(damaged):
        ctx.label("not damaged")
        return
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "x.abc.yaml")
        with open(path, "w", encoding="utf-8") as fh:
            fh.write(damaged)
        res = outcome(lambda: fileio.read_abcvoting_yaml_file(path), "yaml", ctx)
    if res is not None:
        ctx.label("accepted")
        profile, k, instances, data = res
        verify_profile(profile, f"reading {damaged!r}")
        require(len(profile) == len(data["profile"]),
                lambda: f"reading {damaged!r}: {len(profile)} voters")
        require(k is None or type(k) is int, lambda: f"committeesize {k!r}")
        require(isinstance(data, dict) and set(data) <= set(fileio.ABC_YAML_VALID_KEYS),
                lambda: f"reading {damaged!r}: undefined keys {data} accepted")
        require(all("rule_id" in i and i["profile"] is profile and i["committeesize"] == k
                    for i in instances), lambda: f"reading {damaged!r}: computations {instances}")
    ctx.nontrivial()


PREFLIB_DAMAGE = ["no-header-count", "word-count", "word-multiplicity", "no-colon", "two-colons",
                  "empty-file", "header-only", "matching"]
YAML_DAMAGE = ["no-profile", "weights-short", "weights-long", "unknown-key", "no-rule-id",
               "bad-weight"]


@st.composite
def listed_cases(draw):
    kind = draw(st.sampled_from(PREFLIB_DAMAGE + YAML_DAMAGE))
    if kind in PREFLIB_DAMAGE:
        return {"kind": kind, "spec": draw(preflib.files(max_m=4, max_lines=3, simple=True)),
                "weights": draw(st.booleans()), "mode": draw(st.sampled_from(["ranks", "size"])),
                "value": draw(st.integers(1, 3)), "at": draw(st.integers(0, 9))}
    case = draw(gen.instances(max_m=4, max_n=4, modes=("int",)))
    return dict(case, kind=kind, key=draw(st.sampled_from(["foo", "Profile", "weights", "k", "1"])),
                full=draw(st.booleans()))


def check_listed(case, ctx):
    from abcvoting import fileio

    kind = case["kind"]
    with tempfile.TemporaryDirectory() as tmp:
        if kind in PREFLIB_DAMAGE:
            spec = case["spec"]
            lines = preflib.text_of(spec).rstrip("\n").split("\n")
            ballots = [i for i, x in enumerate(lines) if not x.startswith("#")]
            row = ballots[case["at"] % len(ballots)]
            if kind == "no-header-count":  # header line without a number
                lines = [x if not x.startswith("# NUMBER ALT") else "# NUMBER ALTERNATIVES:"
                         for x in lines]
            elif kind == "word-count":
                lines = [x if not x.startswith("# NUMBER VOTERS") else "# NUMBER VOTERS: many"
                         for x in lines]
            elif kind == "word-multiplicity":
                lines[row] = "x" + lines[row]
            elif kind == "no-colon":
                lines[row] = lines[row].replace(":", ",")
            elif kind == "two-colons":
                lines[row] = lines[row].replace(":", "::")
            elif kind == "empty-file":
                lines = []
            elif kind == "header-only":
                lines = [x for x in lines if x.startswith("#")]
            elif kind == "matching":  # well-formed, but neither ordinal nor categorical
                lines = [x for x in lines if x.startswith("# ALTERNATIVE NAME")]
                num = len(lines)
                lines = (["# FILE NAME: x.wmd", "# DATA TYPE: wmd",
                          f"# NUMBER ALTERNATIVES: {num}", f"# NUMBER EDGES: {case['at']}"]
                         + lines + [f"{i % num + 1},{i // num % num + 1},{i}.5"
                                    for i in range(case["at"])])
                spec = {"ext": "wmd"}
            path = os.path.join(tmp, "x." + spec["ext"])
            with open(path, "w", encoding="utf-8") as fh:
                fh.write("\n".join(lines) + "\n" if lines else "")
            if kind == "matching":
                expect_raises(f"{kind}: reading {lines}", (ValueError,
                                                           fileio.MalformattedFileException),
                              _read_preflib, path, case)
            elif kind == "empty-file":  # no candidates
                expect_raises("reading an empty file", Exception, _read_preflib, path, case)
            else:
                expect_raises(f"{kind}: reading {lines}", fileio.MalformattedFileException,
                              _read_preflib, path, case)
        else:
            path = os.path.join(tmp, "x.abc.yaml")
            text = yaml_text(case)
            if kind == "no-profile":
                text = "\n".join(text.split("\n")[1:])
            elif kind in ("weights-short", "weights-long", "bad-weight"):
                w = {"weights-short": case["w"][:-1], "weights-long": case["w"] + ["1"],
                     "bad-weight": ["'one'"] + case["w"][1:]}[kind]
                text = "\n".join(x for x in text.split("\n") if not x.startswith("voter_weights"))
                text += "voter_weights: [" + ", ".join(w) + "]\n"
            elif kind == "unknown-key":
                text += f"{case['key']}: 1\n"
            elif kind == "no-rule-id":
                text = text.split("compute")[0] + "compute:\n- resolute: true\n"
            with open(path, "w", encoding="utf-8") as fh:
                fh.write(text)
            expect_raises(f"{kind}: reading {text!r}", fileio.MalformattedFileException,
                          fileio.read_abcvoting_yaml_file, path)
    ctx.label(kind)
    ctx.nontrivial()


FILES = ["a.soc", "b.soi", "c.toc", "d.toi", "e.cat", "B.cat", "10.soi", "9.soi", "x.txt", "soc",
         "x.soc.bak", "z.abc.yaml", ".soc", "y.SOC", "w.wmd", "README", "a.cat", "zz.soi"]


@st.composite
def dir_cases(draw):
    files = draw(st.lists(st.sampled_from(FILES), max_size=7, unique=True))
    return {
        "files": [[f, draw(preflib.files(max_m=3, max_lines=3, simple=True,
                                         exts=(f.rsplit(".", 1)[-1].lower(),)
                                         if f.rsplit(".", 1)[-1].lower() in
                                         ("soc", "soi", "toc", "toi", "cat") else ("soc",)))]
                  for f in files],
        "subdirs": draw(st.lists(st.sampled_from(["sub", "sub.soc"]), max_size=2, unique=True)),
        "ext": draw(st.sampled_from([None, [".cat"], [".soc", ".soi"], [], ["c"], [".abc.yaml"]])),
        "damage": draw(st.sampled_from([None, None, 0, 1])),
        "mode": draw(st.sampled_from(["default", "top_ranks", "setsize"])),
    }


def check_dir(case, ctx):
    from abcvoting import fileio

    kwargs = {} if case["mode"] == "default" else {case["mode"]: 2}
    with tempfile.TemporaryDirectory() as tmp:
        expect_raises("listing a missing directory", FileNotFoundError, fileio.get_file_names,
                      os.path.join(tmp, "missing"))
        for sub in case["subdirs"]:
            if sub not in [f for f, _ in case["files"]]:
                os.mkdir(os.path.join(tmp, sub))
                with open(os.path.join(tmp, sub, "inner.soc"), "w") as fh:
                    fh.write("no preflib file")
        for name, spec in case["files"]:
            with open(os.path.join(tmp, name), "w", encoding="utf-8") as fh:
                fh.write(preflib.text_of(spec))
        names = sorted(f for f, _ in case["files"])
        if not names:
            expect_raises("listing a directory without files", FileNotFoundError,
                          fileio.get_file_names, tmp)
            expect_raises("reading a directory without files", FileNotFoundError,
                          fileio.read_preflib_files_from_dir, tmp)
            return
        got = sut("get_file_names", fileio.get_file_names, tmp, case["ext"])
        want = [f for f in names
                if not case["ext"] or any(f.endswith(e) for e in case["ext"])]
        require(list(got) == want, lambda: f"get_file_names({case['ext']}): {got}, expected {want}")
        readable = [f for f in names if f.endswith((".soc", ".soi", ".toc", ".toi", ".cat"))]
        # ".soc" is a file name without extension; the parser does not know its format
        parsable = [f for f in readable if f != ".soc"]
        if case["damage"] is not None and parsable:
            bad = parsable[case["damage"] % len(parsable)]
            with open(os.path.join(tmp, bad), "w", encoding="utf-8") as fh:
                fh.write("# NUMBER ALTERNATIVES: two\n1: 1\n")
            expect_raises(f"directory with the damaged file {bad}",
                          fileio.MalformattedFileException,
                          fileio.read_preflib_files_from_dir, tmp)
            ctx.label("damaged file")
            return
        if parsable != readable:
            expect_raises("directory with a file of unknown format",
                          fileio.MalformattedFileException,
                          fileio.read_preflib_files_from_dir, tmp)
            return
        profiles = sut("read_preflib_files_from_dir", fileio.read_preflib_files_from_dir, tmp,
                       **kwargs)
        require(list(profiles) == readable,
                lambda: f"profiles of {list(profiles)}, expected {readable}")
        specs = dict(case["files"])
        for name, profile in profiles.items():
            want = [preflib.approved(specs[name], groups, **kwargs)
                    for count, groups in specs[name]["lines"] for _ in range(count)]
            have = [set(v.approved) for v in profile]
            require(have == want, lambda: f"{name} in a directory: {have}, expected {want}")
        ctx.nontrivial(len(readable) > 1)


FACETS = [
    Facet("preflib", preflib_cases(), check_preflib, 6000, 150000,
          "damaged Preflib files of all five formats; non-trivial: the text differs from the "
          "well-formed file"),
    Facet("yaml", yaml_cases(), check_yaml, 4000, 80000,
          "damaged yaml files; non-trivial: the text differs from the well-formed file"),
    Facet("listed", listed_cases(), check_listed, 1500, 25000,
          "specific damage that has to raise MalformattedFileException"),
    Facet("directories", dir_cases(), check_dir, 1500, 20000,
          "directory contents; non-trivial: at least two readable files"),
]
