"""Calling rules of the code under test, and what their contracts allow."""

from functools import lru_cache
from itertools import combinations
from math import comb

from pbt.core import Violation, require, sut
from pbt.gen import build, copies, fmt, unit

UNIT_ONLY = {"monroe", "greedy-monroe", "lexminimaxav", "rsd"}
NO_COMPLETION = "equal-shares-without-completion"
FLOAT = "float-fractions"


@lru_cache(maxsize=None)
def rule(rule_id):
    from abcvoting import abcrules

    return abcrules.Rule(rule_id)


@lru_cache(maxsize=None)
def algorithms(rule_id):
    """Algorithms of a rule that work in this sandbox (mip-gurobi has no licence for Python MIP)."""
    return tuple(a for a in rule(rule_id).available_algorithms if a != "mip-gurobi")


def applicable(rule_id, algo, case):
    """Does the documented contract of rule and algorithm cover this instance?"""
    if rule_id in UNIT_ONLY and not unit(case):
        return False
    if rule_id == "cc" and algo == "ortools-cp":  # documented: integer weights only
        return all("/" not in w for w in case["w"])
    if rule_id == "leximaxphragmen":  # ILP with (number of copies)^2 binaries: minutes beyond
        return copies(case) <= 5
    return True


def algos_for(rule_id, case):
    return [a for a in algorithms(rule_id) if applicable(rule_id, a, case)]


def exact_algorithms(rule_id):
    return tuple(a for a in algorithms(rule_id) if a != FLOAT)


def supports(rule_id, resolute):
    return resolute in rule(rule_id).resolute_values


@lru_cache(maxsize=None)
def all_rule_ids():
    from abcvoting import abcrules

    extra = [NO_COMPLETION, "geom3", "geom1.5", "seqgeom2", "revseqgeom2", "revseqcc",
             "revseqslav", "seqgeom1.5"]
    return tuple(list(abcrules.MAIN_RULE_IDS) + extra)


def compute(rule_id, profile, k, what=None, **kwargs):
    from abcvoting import abcrules

    desc = what or f"{rule_id}(k={k}, {kwargs})"
    return sut(desc, abcrules.compute, rule_id, profile, k, **kwargs)


def winners(rule_id, case, profile=None, **kwargs):
    """Canonical set of committees computed for a case."""
    if profile is None:
        profile = build(case)
    res = compute(rule_id, profile, case["k"], **kwargs)
    out = fmt(res)
    require(len(set(out)) == len(out), lambda: f"{rule_id} {kwargs}: duplicate committees {out}")
    return set(out)


def combos(case):
    return combinations(range(case["m"]), case["k"])


def binom(n, k):
    return comb(n, k)


def show(s):
    s = sorted(s)
    text = str(s[:12])
    return text if len(s) <= 12 else text[:-1] + f", ... {len(s)} in total]"


def compare(what, got, want):
    if got != want:
        raise Violation(
            f"{what}: wrong winners; missing {show(want - got)}, unexpected {show(got - want)}"
        )
