"""C38: results, reports and files do not depend on the process."""

from hypothesis import strategies as st

from pbt import axcheck, axioms, gen, remote, rules
from pbt.checks import c28
from pbt.core import Facet, Violation, require
from pbt.exact import SOLVER, modes_for, pairs

RULE = ("The same call is made in three fresh interpreter processes that differ in the seed of string "
        "hashing and in memory layout; results (in the returned order), printed reports, written files "
        "and seeded random profiles are compared.")
TECHNIQUE = "property-based testing (Hypothesis): differential between processes"
ASSUMPTIONS = ["ortools-cp is excluded (CP-SAT runs several workers)",
               "ILP solvers run with one thread on this machine",
               "random numbers of RSD and of the generators are seeded"]
NAMES = ["ann", "Bob", "cid", "10", "9", "fay", "gus", "Öl", "ida", "jon", "a b", "leo", "mo"]


def compare(task, ctx):
    answers = remote.ask_all(task)
    for ans in answers:
        if "violation" in ans:
            raise Violation(f"{task['do']}: {ans['violation']}")
    what = {key: task[key] for key in ("do", "rule", "algo", "resolute", "prop", "id")
            if key in task}
    first = answers[0]
    for i, ans in enumerate(answers[1:], 1):
        require(ans["result"] == first["result"],
                lambda: f"{what}: result {first['result']} in one process and {ans['result']} in "
                        f"another (PYTHONHASHSEED={remote.HASH_SEEDS[i]})")
        require(ans["text"] == first["text"],
                lambda: f"{what}: printed {first['text']!r} in one process and {ans['text']!r} in "
                        f"another (PYTHONHASHSEED={remote.HASH_SEEDS[i]})")
    return first


def names(draw, m):
    return draw(st.permutations(NAMES))[:m] if draw(st.booleans()) else None


@st.composite
def compute_cases(draw, solver):
    rule_id, algo = draw(st.sampled_from(
        [p for p in pairs(rules.all_rule_ids(), solver) if p[1] != "ortools-cp"]))
    if rule_id == "leximaxphragmen":
        case = draw(gen.lightweight(max_m=4))
    elif not solver and draw(st.booleans()):
        case = draw(gen.uniform((4, 9), (4, 14), (2, 4), modes_for(rule_id, algo)))
        if rules.binom(case["m"], case["k"]) > 60 and algo == "brute-force":
            case["k"] = 2
    else:
        case = draw(gen.instances(max_m=6, max_n=7, max_k=4, modes=modes_for(rule_id, algo),
                                  wide=True, wide_max_k=2 if algo in SOLVER else 3))
    resolute = draw(st.sampled_from(rules.rule(rule_id).resolute_values))
    return dict(case, do="compute", rule=rule_id, algo=algo, resolute=resolute,
                level=draw(st.sampled_from([30, 20, 15, 10])), names=names(draw, case["m"]),
                seed=draw(st.integers(0, 99)))


def check_compute(case, ctx):
    first = compare(case, ctx)
    ctx.label(case["rule"])
    ctx.label("several winners" if len(first["result"]) > 1 else "one winner")
    ctx.nontrivial(case["k"] < case["m"] and (case["resolute"] or len(first["result"]) > 1))


@st.composite
def property_cases(draw):
    case = draw(axcheck.cases((6, 7), sorted(axioms.REFERENCE)))
    case.pop("float", None)
    algo = draw(st.sampled_from([None, *axioms.ALGORITHMS[case["prop"]]]))
    do = draw(st.sampled_from(["check", "check", "check", "analysis"]))
    return dict(case, do=do, algo=algo, level=draw(st.sampled_from([30, 20, 15, 15, 15, 10])),
                names=names(draw, case["m"]))


def check_property(case, ctx):
    first = compare(case, ctx)
    ctx.label(case["prop"] if case["do"] == "check" else "analysis")
    ctx.nontrivial(len(first["text"]) > 60)


@st.composite
def text_cases(draw, do):
    case = draw(gen.instances(max_m=12, max_n=9, modes=("unit", "int") if do == "files" else
                              ("unit", "int", "frac")))
    coms = draw(st.lists(st.lists(st.integers(0, case["m"] - 1), max_size=5, unique=True),
                         max_size=6))
    return dict(case, do=do, coms=coms, names=names(draw, case["m"]))


def check_text(case, ctx):
    compare(case, ctx)
    ctx.label("names" if case["names"] else "no names")
    ctx.nontrivial(len(case["coms"]) > 1 and len(case["b"]) > 1)


@st.composite
def generate_cases(draw):
    case = draw(c28.cases())
    case["m"] = min(case["m"], 25)
    case["kw"] = draw(c28.params(case["id"], case["n"], case["m"]))
    return dict(case, do="generate")


def check_generate(case, ctx):
    first = compare(case, ctx)
    ctx.label(case["id"])
    ctx.nontrivial(case["n"] > 1 and any(0 < len(b) < case["m"] for b in first["result"][0]))


FACETS = [
    Facet("standard", compute_cases(False), check_compute, 3000, 60000,
          "rules, verbosity levels and candidate names; non-trivial: fewer seats than candidates, "
          "resolute or several winners"),
    Facet("solver", compute_cases(True), check_compute, 500, 8000,
          "the same for ILP algorithms"),
    Facet("properties", property_cases(), check_property, 1500, 30000,
          "property checks and full_analysis; non-trivial: a report was printed"),
    Facet("profiles", text_cases("profile"), check_text, 1000, 20000,
          "text of profiles and committees; non-trivial: several committees and voters"),
    Facet("files", text_cases("files"), check_text, 500, 10000,
          "contents of written files, files read again; non-trivial: several committees and voters"),
    Facet("generators", generate_cases(), check_generate, 1000, 20000,
          "seeded random profiles; non-trivial: several voters, a ballot that is neither empty nor full"),
]
