"""C33: identifiers, entry points and default parameters of a rule are interchangeable."""

import functools

from hypothesis import strategies as st

from pbt import gen, rules
from pbt.core import Facet, require, sut
from pbt.exact import SOLVER, modes_for
from pbt.gen import build, fmt

RULE = ("The same computation through all entry points (compute, Rule, get_rule, functions of the "
        "rule, generic functions, aliases, deprecated names) and with explicit, omitted, positional "
        "and keyword parameters; compute(result=...) with right and wrong results.")
TECHNIQUE = "property-based testing (Hypothesis): differential testing between entry points"
ASSUMPTIONS = ["mip-gurobi cannot start in this sandbox (no licence for Python-MIP) and is skipped",
               "random serial dictatorship is only compared by membership elsewhere (C12)",
               "ortools-cp only with resolute=False (its first optimum is not deterministic)"]

ALIASES = {
    "equal-shares": ["rule-x", "equal-shares-with-seqphragmen-completion"],
    rules.NO_COMPLETION: ["rule-x-without-phragmen-phase", "equal-shares-without-phragmen-phase"],
}
IDS = [r for r in rules.all_rule_ids() if r != "rsd"]


def functions(rule_id):
    """All functions of the public interface that compute this rule."""
    from abcvoting import abcrules as a

    out = {}
    name = "compute_" + rule_id.replace("-", "_")
    if hasattr(a, name):
        out[name] = getattr(a, name)
    part = functools.partial
    if rule_id == "equal-shares":
        out["equal_shares(seqphragmen)"] = part(a.compute_equal_shares, completion="seqphragmen")
        out["rule_x"] = a.compute_rule_x
    elif rule_id == rules.NO_COMPLETION:
        out["equal_shares(None)"] = part(a.compute_equal_shares, completion=None)
        out["rule_x"] = part(a.compute_rule_x, skip_phragmen_phase=True)
    elif rule_id == "equal-shares-with-av-completion":
        out["equal_shares(av)"] = part(a.compute_equal_shares, completion="av")
    elif rule_id == "equal-shares-with-increment-completion":
        out["equal_shares(increment)"] = part(a.compute_equal_shares, completion="increment")
    elif rule_id == "consensus-rule":
        out["consensus_rule"] = a.compute_consensus_rule
    elif rule_id == "trivial":
        out["trivial_rule"] = a.compute_trivial_rule
    elif rule_id in ("av", "sav"):
        out["separable_rule"] = part(a.compute_separable_rule, rule_id)
    elif rule_id in ("pav", "slav", "cc") or rule_id.startswith("geom"):
        out["thiele_method"] = part(a.compute_thiele_method, rule_id)
    elif rule_id.startswith("revseq"):
        out["revseq_thiele_method"] = part(a.compute_revseq_thiele_method, rule_id[6:])
    elif rule_id.startswith("seq") and rule_id != "seqphragmen":
        out["seq_thiele_method"] = part(a.compute_seq_thiele_method, rule_id[3:])
    return out


@st.composite
def cases(draw, solver):
    choices = [(r, a) for r in IDS for a in rules.algorithms(r) if (a in SOLVER) == solver]
    rule_id, algo = draw(st.sampled_from(choices))
    if rule_id == "leximaxphragmen":
        case = draw(gen.lightweight(max_m=4))
    else:
        case = draw(gen.instances(max_m=6, max_n=6, max_k=4, modes=modes_for(rule_id, algo),
                                  wide=True, wide_max_k=2 if algo in SOLVER else 3))
    values = [x for x in rules.rule(rule_id).resolute_values]
    if algo == "ortools-cp":
        values = [False]
    case.update(rule=rule_id, algo=algo, resolute=draw(st.sampled_from(values)),
                max=draw(st.sampled_from([None, None, 1, 2, 3])), style=draw(st.integers(0, 5)))
    if case["resolute"] or algo == "ortools-cp":  # which optima come first is not deterministic
        case["max"] = None
    return case


def check_entries(case, ctx):
    from abcvoting import abcrules as a

    rule_id, k, resolute, num = case["rule"], case["k"], case["resolute"], case["max"]
    rule = rules.rule(rule_id)
    algo = case["algo"]
    full = {"algorithm": algo, "resolute": resolute, "max_num_of_committees": num}
    base = sut(f"compute({rule_id}, {full})", a.compute, rule_id, build(case), k, **full)
    want = [tuple(sorted(c)) for c in base]
    for com in base:
        require(getattr(com, "num_cand", case["m"]) in (None, case["m"]), f"{rule_id}: num_cand")
    # ways to say the same
    kw = dict(full)
    if num is None and case["style"] % 2:
        del kw["max_num_of_committees"]
    if resolute == rule.resolute_values[0] and case["style"] % 3 and num is None:
        del kw["resolute"]
    if algo == rule.fastest_available_algorithm() and case["style"] % 2 == 0:
        if case["style"] > 2:
            kw["algorithm"] = "fastest"
        else:
            del kw["algorithm"]
    entries = {}
    for name in [rule_id] + ALIASES.get(rule_id, []):
        entries[f"compute({name})"] = functools.partial(a.compute, name)
        entries[f"Rule({name}).compute"] = a.Rule(name).compute
        entries[f"get_rule({name}).compute"] = a.get_rule(name).compute
    entries.update(functions(rule_id))
    for name, fct in entries.items():
        for args in ((build(case), k), ()):
            named = dict(kw) if args else dict(kw, profile=build(case), committeesize=k)
            if name == "separable_rule":  # no default algorithm; other default for resolute
                named.update(algorithm=algo, resolute=resolute)
            got = [tuple(sorted(c)) for c in sut(f"{name} {kw}", fct, *args, **named)]
            require(got == want, lambda: f"{name} with {kw}: {got[:9]}, but compute({rule_id}, "
                                         f"{full}) returns {want[:9]}")
    ctx.label(f"{rule_id}")
    ctx.label(f"{len(full) - len(kw)} parameters omitted")
    ctx.nontrivial(0 < len(want) < rules.binom(case["m"], k))


@st.composite
def result_cases(draw):
    case = draw(cases(False))
    case["change"] = draw(st.sampled_from(["none", "none", "shuffle", "drop", "add", "swap"]))
    case["i"] = draw(st.integers(0, 50))
    case["sets"] = draw(st.booleans())
    return case


def check_result(case, ctx):
    """compute(..., result=expected) raises ValueError exactly if the result is different."""
    from abcvoting import abcrules as a
    from abcvoting.misc import CandidateSet

    rule_id, k, resolute = case["rule"], case["k"], case["resolute"]
    kw = {"algorithm": case["algo"], "resolute": resolute}
    winners = fmt(sut("compute", a.compute, rule_id, build(case), k, **kw))
    expected = list(winners)
    others = [c for c in rules.combos(case) if c not in winners]
    i = case["i"]
    if case["change"] == "shuffle":
        expected = expected[i % len(expected):] + expected[:i % len(expected)]
        expected.reverse()
    elif case["change"] == "drop":
        del expected[i % len(expected)]
    elif case["change"] == "add" and others:
        expected.insert(i % (len(expected) + 1), others[i % len(others)])
    elif case["change"] == "swap" and others:
        expected[i % len(expected)] = others[i % len(others)]
    if not expected:
        return
    same = winners[0] in expected if resolute else sorted(expected) == sorted(winners)
    given = [set(c) if case["sets"] else CandidateSet(c) for c in expected]
    if resolute == rules.rule(rule_id).resolute_values[0] and i % 2:
        del kw["resolute"]
    what = f"compute({rule_id}, result={expected[:9]}) with winners {winners[:9]}, {kw}"
    try:
        res = sut(what, a.compute, rule_id, build(case), k, result=given, allow=(ValueError,), **kw)
        require(same, f"{what}: accepted")
        require(fmt(res) == winners, f"{what}: returns {fmt(res)}")
    except ValueError:
        require(not same, f"{what}: rejected")
    ctx.label(case["change"] + (" resolute" if resolute else " irresolute"))
    ctx.nontrivial(bool(others))


@st.composite
def ids(draw):
    extra = ["geom2", "geom5", "geom1.5", "seqgeom3", "revseqgeom2", "revseqslav", "revseqcc"]
    pool = list(rules.all_rule_ids()) + extra + [x for v in ALIASES.values() for x in v]
    return {"id": draw(st.sampled_from(pool)), "kill": draw(st.integers(0, 5))}


def check_metadata(case, ctx):
    from abcvoting import abcrules as a

    rid = case["id"]
    rule = sut(f"Rule({rid})", a.Rule, rid)
    require(rule.rule_id == rid, f"Rule({rid}).rule_id is {rule.rule_id}")
    for text in (rule.shortname, rule.longname):
        require(isinstance(text, str) and text.strip(), f"Rule({rid}): name {text!r}")
    algos = list(rule.algorithms)
    require(algos and len(set(algos)) == len(algos) and set(algos) <= set(a.ALGORITHM_NAMES),
            f"Rule({rid}).algorithms: {algos}")
    avail = list(rule.available_algorithms)
    require(avail == [x for x in algos if x in avail] and avail,
            f"Rule({rid}).available_algorithms: {avail} of {algos}")
    require(set(avail) == set(algos) & set(a.available_algorithms),
            f"Rule({rid}).available_algorithms: {avail}")
    require(rule.fastest_available_algorithm() == avail[0],
            f"Rule({rid}).fastest_available_algorithm(): {rule.fastest_available_algorithm()}")
    values = list(rule.resolute_values)
    require(values and set(values) <= {True, False} and len(set(values)) == len(values),
            f"Rule({rid}).resolute_values: {values}")
    # objects are independent
    del rule.available_algorithms[case["kill"] % len(avail)]
    other = a.Rule(rid)
    require(list(other.available_algorithms) == avail, f"Rule({rid}) objects share state")
    require(len(set(a.MAIN_RULE_IDS)) == len(a.MAIN_RULE_IDS), "MAIN_RULE_IDS has duplicates")
    ctx.nontrivial()


NT = "non-trivial: not every committee of size k wins"
FACETS = [
    Facet("entries", cases(False), check_entries, 5000, 90000,
          f"combinatorial algorithms, about 10 calls per case; {NT}"),
    Facet("entries-solver", cases(True), check_entries, 700, 12000, f"ILP/CP algorithms; {NT}"),
    Facet("result", result_cases(), check_result, 4000, 60000,
          "expected winners given to compute(); non-trivial: some committee does not win"),
    Facet("metadata", ids(), check_metadata, 300, 1000,
          "attributes of Rule objects; every distinct case counts"),
]
