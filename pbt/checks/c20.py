"""C20: property checks are consistent with each other and with full_analysis."""

import contextlib
import io
import re
from fractions import Fraction

from hypothesis import strategies as st

from pbt import axcheck, axioms, gen
from pbt.axcheck import cases, make, run
from pbt.core import Facet, require, sut

RULE = ("Known implications between the answers; full_analysis compared with individual checks "
        "under every verbosity; counterexamples printed for failed checks are parsed and verified "
        "by the definitions.")
TECHNIQUE = "property-based testing (Hypothesis): metamorphic relations, certificate checking"
ASSUMPTIONS = ["implications from the literature (Peters & Skowron; Brill & Peters; Peters et al.)",
               "non-empty committees"]

IMPLIES = [("fjr", "ejr"), ("ejr", "pjr"), ("pjr", "jr"), ("ejr+", "ejr"), ("core", "fjr"),
           ("core", "ejr"), ("stable-priceability", "priceability")]
FULL = [("priceability", "pjr"), ("stable-priceability", "core")]  # default quota


def check_implications(case, ctx):
    profile, com, quota = make(case), case["com"], case["quota"]
    answers = {}
    for prop in axioms.REFERENCE:
        if quota is None or prop in axioms.WITH_QUOTA:
            answers[prop] = run(prop, profile, com, quota)
    for strong, weak in IMPLIES + (FULL if quota is None else []):
        if strong in answers and weak in answers:
            require(answers[weak] or not answers[strong],
                    lambda: f"committee {com}, quota={quota}: {strong} holds, but {weak} does not "
                            f"({answers})")
    ctx.label("true: %d" % sum(answers.values()))
    ctx.nontrivial(any(answers.values()) and not all(answers.values()))


@contextlib.contextmanager
def verbosity(level):
    from abcvoting.output import output

    old = output.verbosity
    output.set_verbosity(level)
    try:
        yield
    finally:
        output.set_verbosity(old)


LEVELS = {"CRITICAL": 50, "ERROR": 40, "WARNING": 30, "INFO": 20, "DETAILS": 15, "DEBUG": 10,
          "DEBUG2": 5}


@st.composite
def full_cases(draw):
    case = draw(cases((5, 5), ["jr"], quotas=False))
    return dict(case, level=draw(st.sampled_from(sorted(LEVELS))))


def check_full(case, ctx):
    from abcvoting import output as out
    from abcvoting import properties

    profile, com = make(case), list(case["com"])
    single = {p: run(p, profile, com) for p in properties.PROPERTY_NAMES}
    level = getattr(out, case["level"])
    buf = io.StringIO()
    before = [(sorted(v.approved), v.weight) for v in profile]
    with verbosity(level):
        with contextlib.redirect_stdout(buf):
            got = sut("full_analysis", properties.full_analysis, profile, com)
        after = out.output.verbosity
    require(dict(got) == single, lambda: f"full_analysis returns {got}, single checks {single}")
    require(after == level, f"verbosity changed from {level} to {after}")
    require(com == case["com"], "the committee was changed")
    require([(sorted(v.approved), v.weight) for v in profile] == before, "the profile was changed")
    text = buf.getvalue()
    values = re.findall(r":\s+(True|False)", text)
    if level <= out.INFO:
        require(sorted(values) == sorted(map(str, single.values())),
                lambda: f"printed {text!r}, answers {single}")
    else:
        require(text == "", lambda: f"verbosity {case['level']}: printed {text!r}")
    ctx.label(case["level"])
    ctx.nontrivial(len(set(single.values())) > 1)


@st.composite
def detail_cases(draw):
    case = draw(cases((6, 6), list(axioms.REFERENCE)))
    case["algo"] = draw(st.sampled_from(axioms.ALGORITHMS[case["prop"]]))
    case["names"] = draw(st.booleans())
    return case


def sets(text):
    return [frozenset(int(x) for x in re.findall(r"\d+", part))
            for part in re.findall(r"\{([\d, ]*)\}", text)]


def check_details(case, ctx):
    """The report agrees with the answer, and the counterexample is genuine."""
    from abcvoting import output as out

    prop, com, quota = case["prop"], case["com"], case["quota"]
    profile = make(case)
    if case["names"]:
        profile.cand_names = [f"<{chr(97 + c)}>" for c in range(case["m"])]
    buf = io.StringIO()
    with verbosity(out.DETAILS), contextlib.redirect_stdout(buf):
        answer = run(prop, profile, com, quota, case["algo"])
    text = " ".join(buf.getvalue().split())
    ctx.label(f"{prop}: {answer}")
    # the first sentence states the answer
    negated = " not " in text.split("(")[0].split("|")[0].replace("No feasible", " ")
    require(text != "" and negated == (not answer) or prop.endswith("priceability"),
            lambda: f"{prop} is {answer}, report: {text}")
    if prop.endswith("priceability"):
        require((" is not " in text) == (not answer), lambda: f"{prop} is {answer}: {text}")
        if answer and gen.unit(case) and "Budget" in text and not case.get("float"):
            check_prices(case, buf.getvalue(), prop)
            ctx.nontrivial()
        return
    if answer:
        return
    s = axioms.Setting(case, com, quota)
    found = sets(text)
    total = sum(s.w)

    def weight(group):
        return sum((s.w[i] for i in group), Fraction(0))

    def bad(msg):
        return lambda: f"{prop}, committee {com}, quota={quota}: {msg}: {text}"

    require(found and found[0] == frozenset(com), bad("the report names another committee"))
    if prop == "pareto":
        other = sum(1 << c for c in found[1])
        require(len(found[1]) == s.size and axioms.dominates(s, other),
                bad("the dominating committee does not dominate"))
        ctx.nontrivial()
        return
    group = found[1]
    require(group and group <= set(range(s.n)), bad("no group of voters"))
    share = re.search(r"([\d.]+)% of all voters", text)
    if share:
        require(abs(Fraction(share.group(1)) - 100 * weight(group) / total) <= Fraction(6, 100),
                bad("wrong share of the group"))
    if prop == "core":
        T = sum(1 << c for c in found[2])
        require(all((s.A[i] & T).bit_count() > s.util[i] for i in group)
                and weight(group) >= len(found[2]) * s.q and T, bad("not a genuine deviation"))
    elif prop in ("jr", "ejr+"):
        name = re.search(r"jointly approve candidate (\S+?)[ ,]", text).group(1)
        names = [str(x) for x in profile.cand_names]
        cand = names.index(name)
        ell = 1 if prop == "jr" else int(re.search(r"deserves (\d+)", text).group(1))
        require(all(s.A[i] >> cand & 1 for i in group), bad("candidate not jointly approved"))
        require(not s.W >> cand & 1, bad("the candidate is in the committee"))
        require(weight(group) >= ell * s.q, bad("the group is too small"))
        require(all(s.util[i] < ell for i in group), bad("some voter is represented"))
    elif prop in ("ejr", "pjr"):
        ell = int(re.search(r"The (\d+)-cohesive", text).group(1))
        joint = sum(1 << c for c in found[2])
        require(len(found[2]) >= ell and s.cut(group) & joint == joint,
                bad("candidates not jointly approved"))
        require(weight(group) >= ell * s.q, bad("the group is too small"))
        if prop == "ejr":
            require(all(s.util[i] < ell for i in group), bad("some voter is represented"))
        else:
            require((s.union(group) & s.W).bit_count() < ell, bad("the group is represented"))
    elif prop == "fjr":
        beta = Fraction(re.search(r"at least ([\d.]+) of the", text).group(1))
        ell = int(re.search(r"of the (\d+) candidates", text).group(1))
        T = sum(1 << c for c in found[2])
        require(len(found[2]) == ell and weight(group) >= ell * s.q, bad("the group is too small"))
        require(all((s.A[i] & T).bit_count() >= beta > s.util[i] for i in group),
                bad("not weakly cohesive or represented"))
    ctx.nontrivial()


def check_prices(case, text, prop):
    """The printed price system satisfies the definition (up to solver tolerance)."""
    eps = 1e-5
    budget = float(re.search(r"Budget: (\S+)", text).group(1))
    com, m, n = set(case["com"]), case["m"], len(case["b"])
    table = text[text.index("|"):text.rindex("Committee")]  # lines may be wrapped
    cells = [float(x) for x in table.replace("|", " ").split()]
    require(len(cells) == m + n * (m + 1), f"{prop}: unexpected table of payments: {text}")
    pays = [cells[m + i * (m + 1) + 1:m + (i + 1) * (m + 1)] for i in range(n)]
    fail = lambda why: (lambda: f"{prop}: printed price system is wrong ({why}): {text}")  # noqa
    for b, pay in zip(case["b"], pays):
        require(sum(pay) <= budget + eps, fail("budget exceeded"))
        require(all(p >= -eps and (p <= eps or c in b) for c, p in enumerate(pay)),
                fail("voter pays for a candidate that is not approved"))
    for c in range(case["m"]):
        total = sum(pay[c] for pay in pays)
        require(abs(total - (1 if c in com else 0)) <= eps, fail(f"price of candidate {c}"))
        if c not in com:
            supporters = [pay for b, pay in zip(case["b"], pays) if c in b]
            if prop == "priceability":
                slack = sum(budget - sum(pay) for pay in supporters)
            else:
                slack = sum(max([budget - sum(pay)] + pay) for pay in supporters)
            require(slack <= 1 + eps, fail(f"candidate {c} is affordable"))


FACETS = [
    Facet("implications", cases((6, 7), ["jr", "pareto"]), check_implications, 1500, 30000,
          "all answers for one committee; non-trivial: some answers are True and some False"),
    Facet("full-analysis", full_cases(), check_full, 700, 12000,
          "full_analysis at every verbosity; non-trivial: not all answers are equal"),
    Facet("details", detail_cases(), check_details, 4000, 80000,
          "printed reports; non-trivial: a counterexample or price system was verified"),
]
