"""C16: invalid parameters are rejected, valid ones accepted."""

import functools
from fractions import Fraction

from hypothesis import strategies as st

from pbt import axcheck, axioms, gen, rules
from pbt.checks.c15 import snapshot
from pbt.core import Facet, expect_raises, require, sut
from pbt.exact import SOLVER, modes_for, pairs
from pbt.gen import build

RULE = ("One fault is injected into an otherwise valid call through one of several entry points; "
        "the unmodified call must succeed.")
TECHNIQUE = "property-based testing (Hypothesis): fault injection into parameters"
ASSUMPTIONS = ["mip-gurobi cannot start in this sandbox (no licence for Python-MIP) and is skipped"]

OTHER_COMPLETIONS = ["Seqphragmen", "pav", "phragmen", "none", "AV", "incremental"]
QUOTA_PROPERTIES = ("jr", "pjr", "ejr", "ejr+", "fjr", "core")
FAULTS = ["none", "k=0", "k<0", "k>m", "empty", "max=0", "max<0", "max=float", "max=str",
          "max+resolute", "weights", "rule", "algorithm", "algorithm-of-other-rule", "resolute"]
BAD_RULES = ["", "AV", "avv", "pav ", "xyz", "seq", "revseq", "seqxyz", "revseqphragmen", "seqsav",
             "equal-shares-with-foo-completion", "geomfoo", "geom", "seqgeomx", "thiele", "monroe2",
             "atleast2", "lexpav", "seqav", "revseqav", "seqatleast2", "revseqlexcc", "seqseqpav"]
BAD_ALGOS = ["", "Standard", "foo", "brute_force", "gurobi-mip", "exact", "mip"]
ALL_ALGOS = ["gurobi", "mip-gurobi", "mip-cbc", "branch-and-bound", "brute-force", "standard",
             "gmpy2-fractions", "standard-fractions", "float-fractions", "ortools-cp"]
ALL_RULES = list(rules.all_rule_ids()) + ["revseqgeom3", "rule-x", "equal-shares-without-phragmen-phase"]


def direct(rule_id):
    """The compute_* function of a rule, if there is one."""
    from abcvoting import abcrules as a

    table = {
        "av": a.compute_av, "sav": a.compute_sav, "pav": a.compute_pav, "slav": a.compute_slav,
        "cc": a.compute_cc, "lexcc": a.compute_lexcc, "seqpav": a.compute_seqpav,
        "revseqpav": a.compute_revseqpav, "seqslav": a.compute_seqslav, "seqcc": a.compute_seqcc,
        "seqphragmen": a.compute_seqphragmen, "minimaxphragmen": a.compute_minimaxphragmen,
        "leximaxphragmen": a.compute_leximaxphragmen,
        "maximin-support": a.compute_maximin_support, "monroe": a.compute_monroe,
        "greedy-monroe": a.compute_greedy_monroe, "minimaxav": a.compute_minimaxav,
        "lexminimaxav": a.compute_lexminimaxav, "equal-shares": a.compute_equal_shares,
        "equal-shares-with-av-completion": functools.partial(a.compute_equal_shares,
                                                             completion="av"),
        "equal-shares-with-increment-completion": functools.partial(a.compute_equal_shares,
                                                                    completion="increment"),
        rules.NO_COMPLETION: functools.partial(a.compute_equal_shares, completion=None),
        "phragmen-enestroem": a.compute_phragmen_enestroem,
        "consensus-rule": a.compute_consensus_rule, "trivial": a.compute_trivial_rule,
        "rsd": a.compute_rsd, "eph": a.compute_eph,
    }
    if rule_id in table:
        return table[rule_id]
    if rule_id.startswith("geom"):
        return functools.partial(a.compute_thiele_method, rule_id)
    if rule_id.startswith("seq"):
        return functools.partial(a.compute_seq_thiele_method, rule_id[3:])
    return functools.partial(a.compute_revseq_thiele_method, rule_id[6:])


@st.composite
def cases(draw):
    rule_id, algo = draw(st.sampled_from(pairs(rules.all_rule_ids(), None)))
    if rule_id == "leximaxphragmen":
        case = draw(gen.lightweight(max_m=4, max_copies=4, max_k=3))
    else:
        case = draw(gen.instances(max_m=5, max_n=4, max_k=4, modes=modes_for(rule_id, algo)))
    case["rule"] = rule_id
    case["algo"] = draw(st.sampled_from([algo, algo, "fastest", None]))
    if case["algo"] is None or case["algo"] == "fastest":
        if rule_id == "cc":
            case["w"] = ["1"] * len(case["w"])
    case["fault"] = draw(st.sampled_from(FAULTS))
    case["entry"] = draw(st.sampled_from(["compute", "Rule", "function"]))
    case["arg"] = draw(st.integers(0, 40))
    return case


def call(entry, rule_id, profile, k, kw):
    from abcvoting import abcrules

    if entry == "compute":
        return abcrules.compute(rule_id, profile, k, **kw)
    if entry == "Rule":
        return abcrules.Rule(rule_id).compute(profile, k, **kw)
    return direct(rule_id)(profile, k, **kw)


def check(case, ctx):
    rule_id, fault, entry, arg = case["rule"], case["fault"], case["entry"], case["arg"]
    k, m = case["k"], case["m"]
    values = rules.rule(rule_id).resolute_values
    kw = {}
    if case["algo"] is not None:
        kw["algorithm"] = case["algo"]
    if arg % 3 and fault not in ("resolute",):
        kw["resolute"] = values[arg % len(values)]
    errors = ValueError
    weighted = dict(case)
    if fault == "weights":
        if rule_id not in rules.UNIT_ONLY:
            fault = "none"
        else:
            weighted["w"] = list(case["w"])
            weighted["w"][arg % len(case["w"])] = ["2", "1/2", "3/2"][arg % 3]
            if arg % 2 and len(case["w"]) > 1:  # the total weight is still the number of voters
                pos = arg // 2 % len(case["w"])
                weighted["w"] = list(case["w"])
                weighted["w"][pos] = ["3/2", "4/3", "5/4"][arg % 3]
                weighted["w"][pos - 1] = ["1/2", "2/3", "3/4"][arg % 3]
                if len(case["w"]) > 2 and arg % 5 == 0:
                    weighted["w"][pos], weighted["w"][pos - 1], weighted["w"][pos - 2] = (
                        "2", "1/2", "1/2")
    profile = build(weighted)
    if fault == "k=0":
        k = 0
    elif fault == "k<0":
        k = -1 - arg % 5
    elif fault == "k>m":
        k = m + 1 + arg % 5
    elif fault == "empty":
        profile = build(dict(case, b=[], w=[]))
    elif fault.startswith("max"):
        if fault != "max+resolute":
            if False not in values:
                fault = "max+resolute"
            else:
                kw["resolute"] = False
                kw["max_num_of_committees"] = {
                    "max=0": 0, "max<0": -1 - arg, "max=float": [1.0, 2.5, 0.5][arg % 3],
                    "max=str": ["1", "all", ""][arg % 3],
                }[fault]
        if fault == "max+resolute":
            kw["resolute"] = True
            kw["max_num_of_committees"] = 1 + arg
            if rule_id in ("greedy-monroe", "rsd") and entry == "function":
                pass
    elif fault == "rule":
        bad = BAD_RULES[arg % len(BAD_RULES)]
        kw.pop("algorithm", None)
        kw.pop("resolute", None)
        before = snapshot(profile)
        what = f"abcrules.{entry} with rule {bad!r}"
        expect_raises(what, ValueError, call, "Rule" if entry == "Rule" else "compute", bad,
                      profile, k, kw)
        require(snapshot(profile) == before, f"{what} changed the profile")
        ctx.label("fault rule")
        ctx.nontrivial()
        return
    elif fault == "algorithm":
        kw["algorithm"] = BAD_ALGOS[arg % len(BAD_ALGOS)]
    elif fault == "algorithm-of-other-rule":
        other = [a for a in ALL_ALGOS if a not in rules.rule(rule_id).algorithms]
        kw["algorithm"] = other[arg % len(other)]
    elif fault == "resolute":
        missing = [x for x in (True, False) if x not in values]
        if missing:
            kw["resolute"] = missing[0]
        else:
            kw["resolute"] = [None, "yes", 2, "True"][arg % 4]
        errors = NotImplementedError
    what = f"{rule_id} via {entry} with k={k} (m={m}), {len(profile)} voters, {kw}"
    before = snapshot(profile)
    if fault == "none":
        res = sut(what, call, entry, rule_id, profile, k, kw)
        require(len(res) > 0, f"{what}: no committees")
    else:
        expect_raises(what, errors, call, entry, rule_id, profile, k, kw)
    require(snapshot(profile) == before, lambda: f"{what} changed the profile")
    ctx.label(f"fault {fault}")
    ctx.label(f"entry {entry}")
    ctx.nontrivial()


@st.composite
def axiom_cases(draw):
    from abcvoting.properties import PROPERTY_NAMES

    case = draw(axcheck.cases((5, 5), sorted(axioms.REFERENCE)))
    return dict(case, prop=draw(st.sampled_from(sorted(PROPERTY_NAMES))),
                fault=draw(st.sampled_from(["none", "none", "name", "quota", "algorithm", "cand",
                                            "negative", "duplicate", "type"])),
                arg=draw(st.integers(0, 40)), direct=draw(st.booleans()))


def check_axiom_faults(case, ctx):
    """check() and the check_* functions reject what they cannot handle."""
    from abcvoting import properties as p

    functions = {"pareto": p.check_pareto_optimality, "jr": p.check_JR, "pjr": p.check_PJR,
                 "ejr": p.check_EJR, "ejr+": p.check_EJR_plus, "fjr": p.check_FJR,
                 "priceability": p.check_priceability,
                 "stable-priceability": p.check_stable_priceability, "core": p.check_core}
    prop, fault, arg = case["prop"], case["fault"], case["arg"]
    com, kw = list(case["com"]), {}
    errors = (ValueError, TypeError)
    direct = case["direct"]
    profile = build(case)
    before = snapshot(profile)
    if fault == "name":
        prop = ["", "EJR", "ejr++", "pareto ", "foo", "stable", "Core", None][arg % 8]
        errors, direct = ValueError, False
    elif fault == "quota":
        if prop in QUOTA_PROPERTIES:
            fault = "none"
        else:
            direct = False
        kw["quota"] = [2, Fraction(1, 2), 1.5][arg % 3]
        errors = ValueError
    elif fault == "algorithm":
        if prop in ("jr", "ejr+"):
            fault = "none"  # only one algorithm; the parameter does not matter
        else:
            kw["algorithm"] = ["", "foo", "bruteforce", "standard", "mip-cbc"][arg % 5]
            errors = NotImplementedError
    elif fault == "cand":
        com[arg % len(com)] = case["m"] + arg % 3
    elif fault == "negative":
        com[arg % len(com)] = -1 - arg % 3
    elif fault == "duplicate":
        com.append(com[arg % len(com)])
    elif fault == "type":
        com[arg % len(com)] = ["0", None, 0.5, (0,)][arg % 4]
    what = f"check({prop!r}, {com}, {kw}), {'direct' if direct else 'by name'}"
    fct = functions[prop] if direct else functools.partial(p.check, prop)
    if fault == "none":
        res = sut(what, fct, profile, com, **kw)
        require(res in (True, False), lambda: f"{what} returned {res!r}")
    else:
        expect_raises(what, errors, fct, profile, com, **kw)
    require(snapshot(profile) == before, lambda: f"{what} changed the profile")
    ctx.label(f"fault {fault}")
    ctx.label(f"{case['prop']}")
    ctx.nontrivial()


@st.composite
def special_cases(draw):
    case = draw(gen.instances(max_m=5, max_n=4, max_k=4, modes=("unit", "int", "frac")))
    return dict(case, kind=draw(st.sampled_from(["completion", "cc-ortools"])),
                algo=draw(st.sampled_from(["float-fractions", "gmpy2-fractions",
                                           "standard-fractions", "fastest"])),
                resolute=draw(st.booleans()), arg=draw(st.integers(0, 40)))


def check_special(case, ctx):
    """Restrictions of single rules."""
    from abcvoting import abcrules

    profile, k = build(case), case["k"]
    before = snapshot(profile)
    if case["kind"] == "completion":
        bad = OTHER_COMPLETIONS[case["arg"] % len(OTHER_COMPLETIONS)]
        what = f"compute_equal_shares(completion={bad!r})"
        expect_raises(what, ValueError, abcrules.compute_equal_shares, profile, k,
                      algorithm=case["algo"], resolute=case["resolute"], completion=bad)
    else:
        what = "cc with ortools-cp"
        kw = dict(algorithm="ortools-cp", resolute=case["resolute"])
        if all(isinstance(v.weight, int) for v in profile):
            sut(what, abcrules.compute_cc, profile, k, **kw)
        else:
            what += " and fractional weights"
            expect_raises(what, TypeError, abcrules.compute_cc, profile, k, **kw)
    require(snapshot(profile) == before, lambda: f"{what} changed the profile")
    ctx.label(what)
    ctx.nontrivial()


FACETS = [
    Facet("axioms", axiom_cases(), check_axiom_faults, 3000, 40000,
          "a check of an axiom with one fault (or none); every distinct case counts"),
    Facet("special", special_cases(), check_special, 800, 10000,
          "unknown completions of Equal Shares, fractional weights for cc/ortools-cp; every "
          "distinct case counts"),
    Facet("faults", cases(), check, 12000, 200000,
          "a valid call with one fault (or none) in a parameter; every distinct case counts"),
]
