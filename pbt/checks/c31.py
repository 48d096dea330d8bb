"""C31: printed reports of rules are truthful."""

import contextlib
import io
import random

from hypothesis import strategies as st

from pbt import gen, large, report, rules
from pbt.core import Facet, require
from pbt.exact import SOLVER, modes_for, pairs
from pbt.gen import build, unit

RULE = ("Generated profiles (with candidate names), rule, algorithm, resolute setting, limit on "
        "committees and verbosity; captured output parsed and compared with the returned "
        "committees and an exact recomputation of every number in the report.")
TECHNIQUE = ("property-based testing (Hypothesis): parsed report against the result and an exact "
             "reference replay")
ASSUMPTIONS = ["candidate names are unique and contain no spaces, commas or braces",
               "the loads of phase 2 of Equal Shares are compared up to a common constant",
               "numbers are compared with tolerance 1e-9 (1e-6 if they come from a solver)",
               "leximax-Phragmen only with at most 5 (copies of) voters"]

CRITICAL, WARNING, INFO, DETAILS, DEBUG, DEBUG2 = 50, 30, 20, 15, 10, 5
LEVELS = [CRITICAL, WARNING, INFO, DETAILS, DEBUG, DEBUG2]


@st.composite
def cases(draw, solver, size, levels=tuple(LEVELS), only=None):
    choices = [p for p in pairs(rules.all_rule_ids(), solver) if only is None or only(p[0])]
    rule_id, algo = draw(st.sampled_from(choices))
    m, n, k = size
    if rule_id == "leximaxphragmen":
        case = draw(gen.lightweight(max_m=5))
    else:
        case = draw(gen.instances(max_m=m, max_n=n, max_k=k, modes=modes_for(rule_id, algo),
                                  wide=True, wide_max_k=2 if algo in SOLVER else 3))
    case["rule"], case["algo"] = rule_id, algo
    case["resolute"] = draw(st.sampled_from(rules.rule(rule_id).resolute_values))
    case["max"] = None
    if not case["resolute"] and draw(st.integers(0, 3)) == 0:
        case["max"] = draw(st.integers(1, 3))
    case["level"] = draw(st.sampled_from(list(levels)))
    case["names"] = None
    if draw(st.integers(0, 2)):
        case["names"] = draw(st.permutations(report.NAMES))[:case["m"]]
    return case


def run(case):
    """(committees, printed text)"""
    from abcvoting.output import output

    kw = {} if case["max"] is None else {"max_num_of_committees": case["max"]}
    profile = build(case, cand_names=case["names"])
    sink = io.StringIO()
    old = output.verbosity
    try:
        output.set_verbosity(case["level"])
        with contextlib.redirect_stdout(sink):
            coms = rules.compute(case["rule"], profile, case["k"], algorithm=case["algo"],
                                 resolute=case["resolute"], **kw)
    finally:
        output.set_verbosity(old)
    return [frozenset(c) for c in coms], sink.getvalue()


def check(case, ctx):
    from abcvoting import abcrules

    rule_id = case["rule"]
    coms, text = run(case)
    what = f"{rule_id}/{case['algo']}"
    level = case["level"]
    ctx.label(f"level {level}")
    ctx.label(f"{what}/{'resolute' if case['resolute'] else 'irresolute'}")
    if level > INFO:
        body = "\n".join(line for line in text.split("\n") if "estricted license" not in line)
        require(not body.strip(), lambda: f"{what}: printed at verbosity {level}: {body!r}")
        return
    names = case["names"] or [str(c) for c in range(case["m"])]
    rep = report.Report(text, case, names, rule_id, rules.rule(rule_id).longname)
    printed = rep.committees()
    rep.need(len(printed) == len(coms) and set(printed) == set(coms),
             lambda: f"lists {[sorted(c) for c in printed]}, returned {[sorted(c) for c in coms]}")
    if "Computing only one winning committee" in rep.flat:
        rep.need(case["resolute"], "claims that only one committee is computed")
    if "Computing all possible winning committees" in rep.flat:
        rep.need(not case["resolute"], "claims that all winning committees are computed")
    ctx.nontrivial(len(coms) < rules.binom(case["m"], case["k"]) and level <= DETAILS)
    ctx.label("unit weights" if unit(case) else "weighted")
    if level > DETAILS:
        return
    algo = rep.one(r"Algorithm: ((?:(?! adding| starting| full| Scores| Optimal| At-least| The "
                   r"| There| Incr| Phase| \d+ winning).)*)", "algorithm")
    rep.need(algo == " ".join(abcrules.ALGORITHM_NAMES[case["algo"]].split()),
             lambda: f"algorithm {algo!r}")
    fct = report.details(rule_id)
    if fct is not None:
        fct(rep, printed, case["resolute"])
        if rep.known:
            ctx.known_hits.extend(set(rep.known))
            ctx.label("known finding: removed candidate left out of the reported tie (revseq)")
        if " are tied" in rep.flat:
            ctx.label("reported tie")
        ctx.label(f"details checked: {fct.__name__}")


def no_report(rule_id):
    return report.details(rule_id) is None


LARGE = [p for p in pairs(rules.all_rule_ids(), False)
         if p[0] in large.SEQUENTIAL + ["greedy-monroe"] and not no_report(p[0])]


@st.composite
def large_cases(draw):
    rule_id, algo = draw(st.sampled_from(LARGE))
    rng = random.Random(draw(st.integers(0, 2**48)))
    modes = ("unit",) if rule_id in rules.UNIT_ONLY else ("unit", "int", "wide", "frac")
    case = large.large_case(rng, (8, 24), (10, 70), (2, 10), modes)
    m = case["m"]
    names = rng.choice([None, None, [f"c{m - i}" for i in range(m)],
                        [f"{i}-{'abc' * (i % 7)}" for i in range(m)]])
    resolute = rules.supports(rule_id, True)  # otherwise the number of ties is out of control
    return dict(case, rule=rule_id, algo=algo, resolute=resolute, max=None,
                level=rng.choice([INFO, DETAILS, DETAILS, DEBUG2]), names=names)


NT = "non-trivial: detailed report, and not every committee of size k wins"



# three candidates tied in the first step, two in the second
TIED = {"m": 3, "b": [[0], [1], [2]], "w": ["1", "1", "1"], "k": 1, "rule": "revseqpav",
        "algo": "standard", "resolute": True, "max": None, "level": DETAILS, "names": None}

FACETS = [
    Facet("standard", cases(False, (6, 7, 5)), check, 9000, 120000,
          f"all rules with combinatorial algorithms, all verbosity levels; {NT}"),
    Facet("standard-details", cases(False, (7, 9, 5), (DETAILS, DETAILS, DEBUG2),
                                    lambda r: not no_report(r)), check, 9000, 120000,
          f"rules with a detailed report; {NT}", corpus=[TIED]),
    Facet("solver", cases(True, (5, 6, 4)), check, 2000, 20000,
          f"the same for ILP/CP algorithms; {NT}"),
    Facet("large", large_cases(), check, 600, 12000,
          f"8-24 candidates, 10-70 voters, up to 10 seats, rules with a detailed report; {NT}",
          min_shard=40, minimise=True),
]
