"""C37: reports of property checks are truthful, their reasons are counterexamples."""

import contextlib
import io
import random
import re
from fractions import Fraction

from hypothesis import strategies as st

from pbt import axcheck, axioms, gen
from pbt.core import Facet, require, sut

RULE = ("Generated profiles (with candidate names), committees, quotas, properties, algorithms and "
        "verbosity levels; the captured report is parsed: the verdict is compared with the result "
        "and the printed group, candidates and numbers are checked to be a counterexample.")
TECHNIQUE = ("property-based testing (Hypothesis): parsed report against the result; certificate "
             "checking by definition")
ASSUMPTIONS = ["candidate names are unique and contain no spaces, commas or braces",
               "payments printed for priceability are not checked, the budget only from below"]

INFO, DETAILS, DEBUG2 = 20, 15, 5
NAMES = ["ann", "bob", "cid", "dan", "eve", "fay", "gus", "hal", "ida", "jon", "kim", "leo"]
FULL = {"Pareto optimality": "pareto", "Justified representation (JR)": "jr",
        "Proportional justified representation (PJR)": "pjr",
        "Extended justified representation (EJR)": "ejr", "EJR+": "ejr+",
        "Full justified representation (FJR)": "fjr", "Priceability": "priceability",
        "Stable Priceability": "stable-priceability", "The core": "core"}


@st.composite
def cases(draw, size, full=False):
    rng = random.Random(draw(st.integers(0, 2**32)))
    case = draw(axcheck.cases(size, [rng.choice(PROPS)], quotas=not full))
    if rng.random() < 0.75:  # many voters of the same kind, a committee most of them dislike
        if rng.random() < 0.7:
            base = rng.sample(range(case["m"]), rng.randint(1, max(1, case["m"] - 1)))
            case["b"] = [sorted(rng.sample(base, rng.randint(min(len(base), 2), len(base))))
                         if rng.random() < 0.7 else b for b in case["b"]]
        score = [sum(c in b for b in case["b"]) + 0.8 * rng.random() for c in range(case["m"])]
        num = rng.randint(1, max(1, min(4, case["m"] // 2)))
        case["com"] = sorted(sorted(range(case["m"]), key=score.__getitem__)[:num])
    case["level"] = INFO if full else draw(st.sampled_from([DETAILS, DETAILS, DETAILS, INFO, DEBUG2]))
    case["algo"] = None if full else draw(st.sampled_from([None, *axioms.ALGORITHMS[case["prop"]]]))
    case["names"] = draw(st.permutations(NAMES)) if draw(st.booleans()) else None
    return case


@contextlib.contextmanager
def captured(level, sink):
    from abcvoting.output import output

    output.set_verbosity(level)
    try:
        with contextlib.redirect_stdout(sink):
            yield
    finally:
        output.set_verbosity()


def make(case):
    profile = axcheck.make(case)
    if case["names"]:
        profile.cand_names = list(case["names"])[:case["m"]]
    return profile


def members(text):
    return {int(x) for x in re.findall(r"\d+", text)}


def first(pattern, text, what):
    found = re.search(pattern, text)
    require(found is not None, lambda: f"{what} not found in {text!r}")
    return found


PROPS = sorted(axioms.REFERENCE)
SET = r"\{[^{}]*\}"
NUM = r"[-+.e\d]+"


def integer(text):
    """Gurobi's value of an integer variable may be printed as a float."""
    require(abs(float(text) - round(float(text))) < 1e-4, lambda: f"{text} is not an integer")
    return round(float(text))


def check_report(case, ctx):
    prop, com, quota = case["prop"], set(case["com"]), case["quota"]
    profile = make(case)
    sink = io.StringIO()
    with captured(case["level"], sink):
        result = axcheck.run(prop, profile, case["com"], quota, case["algo"])
    text = " ".join(sink.getvalue().split())
    what = f"check({prop!r}, {case['com']}, quota={quota}, algorithm={case['algo']}) = {result}"
    verdict = first(rf"Committee ({SET}) (satisfies|does not satisfy|is not|is) ?"
                    r"(in the core|Pareto optimal|stable priceable|priceable|EJR\+|PJR|EJR|FJR|JR)",
                    text, f"{what}: verdict")
    ctx.label(f"{prop}: {result}")
    require(members(verdict[1]) == com, lambda: f"{what}: report {text!r} on another committee")
    require(("not" not in verdict[2]) == result, lambda: f"{what}, but report {text!r}")
    name = {"core": "in the core", "pareto": "Pareto optimal",
            "stable-priceability": "stable priceable", "priceability": "priceable"}.get(
                prop, prop.upper())
    require(verdict[3] == name, lambda: f"{what}: report {text!r} on another property")
    if quota is None:
        require("quota" not in text, lambda: f"{what}: report {text!r}")
    else:
        require(f"(for quota = {gen.to_weight(quota)})" in text, lambda: f"{what}: report {text!r}")
    reason = text[verdict.end():]
    if case["level"] == INFO:
        require("(The" not in reason and "(It" not in reason, lambda: f"{what}: {reason!r}")
    elif not result and prop not in ("priceability", "stable-priceability"):
        check_reason(case, profile, com, quota, reason, f"{what}: report {text!r}")
        ctx.label(f"reason for {prop}/{case['algo'] or 'default'}")
        ctx.nontrivial(True)
    elif result and prop == "priceability" and gen.unit(case):
        budget = re.search(r"Budget: ([-+.e\d]+)", text)
        if budget:  # not printed if too few candidates are approved
            require(float(budget[1]) >= len(com) / len(case["b"]) - 1e-6,
                    lambda: f"{what}: {text!r} - this budget does not pay for {len(com)} members")


def check_reason(case, profile, com, quota, reason, what):
    """Does the printed reason refute the property?"""
    weights = gen.fracs(case)
    ballots = [set(b) for b in case["b"]]
    total = sum(weights)
    quota = total / len(com) if quota is None else Fraction(quota)
    prop = case["prop"]
    if prop == "pareto":
        other = members(first(rf"dominated by the committee ({SET})", reason, f"{what}: committee")[1])
        require(len(other) == len(com) and other <= set(range(case["m"])),
                lambda: f"{what}: {other} is not a committee of this size")
        require(all(len(b & other) >= len(b & com) for b in ballots)
                and any(len(b & other) > len(b & com) for b in ballots),
                lambda: f"{what}: {other} does not dominate {com}")
        return
    group = members(first(rf"group of voters ({SET})", reason, f"{what}: group")[1])
    require(group <= set(range(len(ballots))), lambda: f"{what}: group {group}")
    weight = sum(weights[v] for v in group)
    share = float(first(r"([\d.]+)% of all voters", reason, f"{what}: share")[1])
    require(abs(share - float(weight / total) * 100) < 0.051,
            lambda: f"{what}: the group makes up {float(weight / total):.1%}, not {share}%")
    require(("by weight" in reason) == (not gen.unit(case)),
            lambda: f"{what}: reason {reason!r} with weights {case['w']}")

    def demand(condition, text):
        require(condition, lambda: f"{what}: {text} (group {group}, weight {weight}, quota {quota})")

    if prop in ("jr", "ejr+"):
        name = first(r"jointly approve candidate (\S+?)(,| )", reason, f"{what}: candidate")[1]
        cand = list(profile.cand_names).index(name) if name in profile.cand_names else -1
        ell = 1 if prop == "jr" else int(first(r"deserves (\d+) ", reason, f"{what}: ell")[1])
        demand(ell >= 1 and weight >= ell * quota, f"the group does not deserve {ell} seats")
        demand(all(cand in ballots[v] for v in group), f"candidate {name} is not jointly approved")
        demand(cand not in com, f"candidate {name} is in the committee")
        demand(all(len(ballots[v] & com) < ell for v in group), "a voter is represented")
    elif prop in ("pjr", "ejr"):
        ell = int(first(r"The (\d+)-cohesive", reason, f"{what}: ell")[1])
        cands = members(first(rf"jointly approve the candidates ({SET})", reason,
                              f"{what}: candidates")[1])
        demand(ell >= 1 and weight >= ell * quota, f"the group does not deserve {ell} seats")
        demand(len(cands) >= ell and all(cands <= ballots[v] for v in group),
               f"{cands} are not {ell} jointly approved candidates")
        if prop == "ejr":
            demand(all(len(ballots[v] & com) < ell for v in group), "a voter is represented")
        else:
            demand(len(com & set().union(*(ballots[v] for v in group))) < ell,
                   "the group is represented")
    elif prop == "fjr":
        numbers = first(rf"at least ({NUM}) of the ({NUM}) candidates ({SET})", reason,
                        f"{what}: candidates")
        beta, ell, cands = integer(numbers[1]), integer(numbers[2]), members(numbers[3])
        most = integer(first(rf"at most ({NUM}) candidates in the committee", reason,
                             f"{what}: at most")[1])
        demand(len(cands) == ell >= 1 and weight >= ell * quota,
               f"the group does not deserve {len(cands)} seats")
        demand(most == beta - 1 and all(len(ballots[v] & cands) >= beta > len(ballots[v] & com)
                                        for v in group), "the group is not weakly cohesive")
    else:
        cands = members(first(rf"by proposing ({SET})", reason, f"{what}: objection")[1])
        demand(cands and weight >= len(cands) * quota and cands <= set(range(case["m"])),
               f"the group cannot afford {cands}")
        demand(all(len(ballots[v] & cands) > len(ballots[v] & com) for v in group),
               f"not all voters prefer {cands}")


def check_full(case, ctx):
    from abcvoting import properties

    profile = make(case)
    sink = io.StringIO()
    with captured(INFO, sink):
        results = sut("full_analysis", properties.full_analysis, profile, case["com"])
    lines = [line for line in sink.getvalue().split("\n") if line.strip()]
    got = {}
    for line in lines:
        name, _, value = line.rpartition(":")
        require(name.strip() in FULL and value.strip() in ("True", "False"),
                lambda: f"full_analysis prints {line!r}")
        got[FULL[name.strip()]] = value.strip() == "True"
    require(got == results and len(lines) == len(results),
            lambda: f"full_analysis({case['com']}) returns {results} and prints {lines}")
    ctx.nontrivial(len(set(results.values())) == 2)


FACETS = [
    Facet("reasons", cases((7, 7)), check_report, 14000, 200000,
          "up to 7 candidates and 7 voters: verdict, quota and reason in the report of a single "
          "check; non-trivial: a reason for a violated property was printed and verified"),
    Facet("full-analysis", cases((5, 5), full=True), check_full, 500, 8000,
          "the table printed by full_analysis; non-trivial: some property holds and some is "
          "violated"),
]
