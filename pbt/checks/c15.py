"""C15: computing winners is a pure function of profile and parameters."""

import contextlib
import io
import random

from hypothesis import strategies as st

from pbt import axcheck, axioms, gen, oracle, rules
from pbt.core import Facet, require
from pbt.exact import SOLVER, modes_for, pairs
from pbt.gen import build, fmt, unit

RULE = ("Same call repeated after other calls, at another verbosity, with other candidate names and "
        "on an equal profile built differently; snapshot of profile and global state around it.")
TECHNIQUE = "property-based testing (Hypothesis): state snapshot invariants and metamorphic relations"
ASSUMPTIONS = ["mip-gurobi cannot start in this sandbox (no licence for Python-MIP) and is skipped",
               "leximax-Phragmen only with at most 5 (copies of) voters"]
VERBOSITIES = [50, 40, 30, 20, 15, 10, 5]
NAMES = ["abcdefghijklmnopqrstuvwxyz", "zyxwvutsrqponmlkjihgfedcba", None,
         [f"candidate {i % 3} of {i}" for i in range(26)], ["x"] * 26]


@st.composite
def cases(draw, solver):
    choices = pairs(rules.all_rule_ids(), solver)
    rule_id, algo = draw(st.sampled_from(choices))
    if rule_id == "leximaxphragmen":
        case = draw(gen.lightweight(max_m=4))
    else:
        case = draw(gen.instances(max_m=6, max_n=6, max_k=4, modes=modes_for(rule_id, algo),
                                  wide=True, wide_max_k=2 if algo in SOLVER else 3))
    case["rule"] = rule_id
    case["algo"] = algo
    case["resolute"] = draw(st.sampled_from(rules.rule(rule_id).resolute_values))
    case["verbosity"] = draw(st.sampled_from(VERBOSITIES))
    case["names"] = draw(st.integers(0, len(NAMES) - 1))
    other = draw(gen.instances(max_m=5, max_n=5, max_k=3, modes=("unit", "int")))
    other["rule"] = draw(st.sampled_from([
        r for r in rules.all_rule_ids() if r not in ("leximaxphragmen", "maximin-support")]))
    case["other"] = other
    case["seed"] = draw(st.integers(0, 3))
    return case


def snapshot(profile):
    return (
        [id(v) for v in profile],
        [(tuple(sorted(v.approved)), type(v.approved).__name__, v.weight,
          type(v.weight).__name__) for v in profile],
        profile.num_cand,
        list(profile.candidates),
        list(profile.cand_names),
    )


def run(case, profile, verbosity):
    """(committees in returned order, printed text) of one call, with checks of side effects."""
    from abcvoting.output import output

    output.set_verbosity(verbosity)
    before = snapshot(profile)
    random.seed(case["seed"])
    out = io.StringIO()
    what = f"{case['rule']}/{case['algo']}/resolute={case['resolute']}"
    with contextlib.redirect_stdout(out):
        res = rules.compute(case["rule"], profile, case["k"], algorithm=case["algo"],
                            resolute=case["resolute"], what=what)
    require(output.verbosity == verbosity,
            lambda: f"{what} changed the global verbosity from {verbosity} to {output.verbosity}")
    after = snapshot(profile)
    require(before == after, lambda: f"{what} changed the profile: {before} -> {after}")
    # the result must not alias the profile
    for com in res:
        require(all(com is not v.approved for v in profile), f"{what}: result aliases a voter")
    return [tuple(sorted(c)) for c in res], out.getvalue()


def check(case, ctx):
    what = f"{case['rule']}/{case['algo']}/resolute={case['resolute']}"
    profile = build(case)
    first, _ = run(case, profile, 30)
    if case["algo"] != "ortools-cp":
        allowed = [first]
    elif case["resolute"]:  # CP-SAT runs several workers: any of the tied committees
        with contextlib.redirect_stdout(io.StringIO()):
            allowed = [[com] for com in fmt(rules.compute(
                case["rule"], build(case), case["k"], algorithm=case["algo"], resolute=False))]
    else:
        allowed = []

    def same(res):
        if case["algo"] == "ortools-cp" and not case["resolute"]:
            return sorted(res) == sorted(first)
        return res in allowed

    # history: other computations on the same and on another profile
    other = case["other"]
    if rules.algos_for(other["rule"], other):
        with contextlib.redirect_stdout(io.StringIO()):
            rules.compute(other["rule"], build(other), other["k"])
    if case["rule"] != "leximaxphragmen" and rules.applicable(other["rule"], "", case):
        with contextlib.redirect_stdout(io.StringIO()):
            rules.compute(other["rule"], profile, case["k"])
    again, _ = run(case, profile, 30)
    require(same(again), lambda: f"{what}: repeated call returned {again} instead of {first}")
    loud, _ = run(case, profile, case["verbosity"])
    require(same(loud),
            lambda: f"{what}: verbosity {case['verbosity']} changed {first} to {loud}")
    names = NAMES[case["names"]]
    named = build(case, plain=False, cand_names=names)
    got, _ = run(case, named, case["verbosity"])
    require(same(got), lambda: f"{what}: candidate names {names} changed {first} to {got}")
    ctx.label(f"{case['rule']}/{case['algo']}")
    ctx.label(f"verbosity {case['verbosity']}")
    ctx.label("unit weights" if unit(case) else "weighted")
    ctx.nontrivial(case["k"] < case["m"])


CHANGES = ["add", "add", "add_weighted", "replace", "replace_voter", "weight", "approve", "approve",
           "to_unit", "to_weighted", "copy", "names", "check", "score"]


@st.composite
def histories(draw):
    """Computations on a profile that changes in between."""
    m = draw(st.integers(2, 5))
    ballot = st.lists(st.integers(0, m - 1), max_size=m, unique=True).map(sorted)
    choices = [p for p in pairs(rules.all_rule_ids(), None)
               if p[0] not in ("leximaxphragmen", "rsd", "sav") and p[1] not in SOLVER]
    few = draw(st.lists(st.sampled_from(choices), min_size=1, max_size=3))
    step = st.fixed_dictionaries({
        "do": st.sampled_from(CHANGES), "b": ballot, "w": st.sampled_from([1, 1, 2, 3]),
        "i": st.integers(0, 11), "rule": st.sampled_from(few), "k": st.integers(1, m),
        "resolute": st.booleans(), "level": st.sampled_from([30, 30, 30, 20, 10]),
    })
    return {"m": m, "b": draw(st.lists(ballot, min_size=1, max_size=5)),
            "steps": draw(st.lists(step, min_size=2, max_size=12))}


def check_history(case, ctx):
    from abcvoting import scores
    from abcvoting.output import output
    from abcvoting.preferences import Voter

    m = case["m"]
    model = [(frozenset(b), 1) for b in case["b"]]
    profile = build({"m": m, "b": case["b"], "w": ["1"] * len(case["b"])})
    done, compared, old = [], 0, []
    for step in case["steps"]:
        do, b, w, i = step["do"], step["b"], step["w"], step["i"]
        pos = i % len(model)
        done.append(do)
        where = f"after {done}"
        if do == "add":
            profile.add_voter(b)
            model.append((frozenset(b), 1))
        elif do == "add_weighted":
            profile.add_voters([Voter(b, weight=w)])
            model.append((frozenset(b), w))
        elif do == "replace":
            profile[pos] = b
            model[pos] = (frozenset(b), 1)
        elif do == "replace_voter":
            profile[pos] = Voter(b, weight=w)
            model[pos] = (frozenset(b), w)
        elif do == "weight":
            profile[pos].weight = w
            model[pos] = (model[pos][0], w)
        elif do == "approve":
            c = i % m
            profile[pos].approved.symmetric_difference_update({c})
            model[pos] = (model[pos][0] ^ {c}, model[pos][1])
        elif do == "to_unit":
            profile.convert_to_unit_weights()
            model = [(x, 1) for x, y in model for _ in range(y)]
        elif do == "to_weighted":
            profile.convert_to_weighted()
            model = [(frozenset(v.approved), int(v.weight)) for v in profile]
        elif do == "copy":
            old.append((profile, list(model)))
            profile = profile.copy()
            if i % 2:
                profile, model = old.pop(i % len(old))
        elif do == "names":
            profile.cand_names = [f"{i}-{c}" for c in range(m)]
        now = {"m": m, "b": [sorted(x) for x, _ in model], "w": [str(y) for _, y in model],
               "k": step["k"]}
        if do == "check":
            com = sorted(set(b)) or [0]
            prop = sorted(axioms.REFERENCE)[i % len(axioms.REFERENCE)]
            got = axcheck.run(prop, profile, com)
            want = axcheck.run(prop, build(now), com)
            require(got == want, lambda: f"{where}: check({prop}, {com}) is {got} for the profile "
                                         f"with this history, {want} for an equal new one")
        elif do == "score":
            com = set(b)
            got, want = (scores.thiele_score("pav", p, com) for p in (profile, build(now)))
            require(got == want, lambda: f"{where}: PAV score {got}, for a new profile {want}")
        rule_id, algo = step["rule"]
        if not rules.applicable(rule_id, algo, now):
            continue
        resolute = step["resolute"]
        if not rules.supports(rule_id, resolute):
            resolute = not resolute
        output.set_verbosity(step["level"])
        what = f"{where}: {rule_id}/{algo}/resolute={resolute}, k={step['k']}"
        with contextlib.redirect_stdout(io.StringIO()):
            got = rules.compute(rule_id, profile, step["k"], algorithm=algo, resolute=resolute,
                                what=what)
            new = rules.compute(rule_id, build(now), step["k"], algorithm=algo, resolute=resolute,
                                what=what)
        got, new = ([tuple(sorted(c)) for c in x] for x in (got, new))
        require(got == new, lambda: f"{what}: {got} for the profile with this history, {new} for "
                                    "an equal new one")
        every, one = oracle.expected(rule_id, now)
        require(set(got) <= set(one) if resolute else set(got) == set(every),
                lambda: f"{what}: {got}, by definition {rules.show(one if resolute else every)}")
        compared += 1
        # neither the results nor the profile belong to later calls
        require([(frozenset(v.approved), v.weight) for v in profile] == model,
                lambda: f"{what}: the profile was changed")
    for p, mod in old:
        require([(frozenset(v.approved), v.weight) for v in p] == mod,
                "a copied profile was changed")
    ctx.label(f"{min(compared, 8)} computations")
    ctx.nontrivial(compared > 1)


NT = "non-trivial: fewer seats than candidates"
FACETS = [
    Facet("histories", histories(), check_history, 2500, 50000,
          "computations on a profile (and its copies) that is modified in between, compared with "
          "new profiles and with the exact reference; non-trivial: at least two computations"),
    Facet("standard", cases(False), check, 6000, 120000,
          f"one rule/algorithm called four times with other calls in between; {NT}"),
    Facet("solver", cases(True), check, 1500, 25000, f"the same for ILP/CP algorithms; {NT}"),
]
