"""C17: rules satisfy the representation axioms proved for them."""

import random
from fractions import Fraction
from itertools import combinations

from hypothesis import strategies as st

from pbt import axioms, gen, rules
from pbt.core import Facet, require
from pbt.exact import SOLVER
from pbt.gen import build, fmt

RULE = ("Committees computed for generated profiles are tested against independent definitions of "
        "the axioms that are theorems for the rule; party-list profiles against the apportionment "
        "methods; committees of consecutive sizes against each other.")
TECHNIQUE = "property-based testing (Hypothesis): theorems as oracles"
ASSUMPTIONS = ["mip-gurobi cannot start in this sandbox (no licence for Python-MIP) and is skipped",
               "leximax-Phragmen only with at most 5 voters"]

# "equal-shares-with-increment-completion" is not in this list: it stops once the committee is
# full, which may happen (with an increased budget) before all deserving groups are served
THEOREMS = {
    "pav": ("ejr+", "pareto"), "slav": ("pareto",), "geom2": ("pareto",), "geom3": ("pareto",),
    "av": ("pareto",), "lexcc": ("jr", "pareto"), "cc": ("jr",), "seqcc": ("jr",),
    "seqphragmen": ("pjr", "priceability"), "leximaxphragmen": ("pjr",),
    "maximin-support": ("pjr",), "monroe": ("jr",), "greedy-monroe": ("jr",),
    "equal-shares": ("ejr+", "priceability"),
    "equal-shares-without-completion": ("ejr+", "priceability"),
    "equal-shares-with-av-completion": ("ejr+",),
}


def pairs(solver):
    return [(r, a) for r in THEOREMS for a in rules.algorithms(r) if (a in SOLVER) == solver]


@st.composite
def cases(draw, solver, size):
    rule_id, algo = draw(st.sampled_from(pairs(solver)))
    m, n, k = size
    if rule_id == "leximaxphragmen":
        case = draw(gen.lightweight(max_m=5, unit_only=True))
    else:
        case = draw(gen.instances(max_m=m, max_n=n, max_k=k, modes=("unit",),
                                  min_k=draw(st.sampled_from([1, 2, 3])),
                                  min_m=m - 3 if n > 8 else 1, min_n=n // 2 if n > 8 else 1))
    n = len(case["b"])
    if rule_id in ("monroe", "greedy-monroe"):  # JR requires k to divide n
        case["k"] = draw(st.sampled_from([k for k in range(1, case["m"] + 1)
                                          if n % k == 0 and (k <= size[2] or k == 1)]))
    return dict(case, rule=rule_id, algo=algo)


def ejr_plus_groups(case, com):
    """Polynomial-time version for larger profiles."""
    n, k = len(case["b"]), case["k"]
    for c in range(case["m"]):
        if c in com:
            continue
        for ell in range(1, k + 1):
            group = [b for b in case["b"] if c in b and len(set(b) & set(com)) < ell]
            if len(group) * k >= ell * n:
                return False
    return True


def check(case, ctx):
    rule_id, algo = case["rule"], case["algo"]
    quota = Fraction(len(case["b"]), case["k"])
    seen = set()
    for resolute in rules.rule(rule_id).resolute_values:
        res = rules.compute(rule_id, build(case), case["k"], algorithm=algo, resolute=resolute)
        seen |= set(fmt(res))
    for com in sorted(seen)[:8]:
        if not com:
            continue
        setting = axioms.Setting(case, com, quota)
        for axiom in THEOREMS[rule_id]:
            if axiom == "ejr+":
                holds = ejr_plus_groups(case, com)
            elif len(case["b"]) > 9 and axiom not in ("pareto",):
                continue
            else:
                holds = axioms.REFERENCE[axiom](setting)
            require(holds, lambda: f"{rule_id}/{algo}: committee {com} violates {axiom}")
    ctx.label(f"{rule_id}/{algo}")
    ctx.nontrivial(len(seen) < rules.binom(case["m"], case["k"]) and len(case["b"]) > 1)


DIVISOR = {"pav": 1, "seqpav": 1, "seqphragmen": 1, "maximin-support": 1, "slav": 2, "seqslav": 2}


@st.composite
def party_cases(draw):
    """Disjoint parties with k candidates each, sizes as integer weights."""
    parties = draw(st.integers(2, 3))
    k = draw(st.integers(1, 4))
    votes = draw(st.lists(st.integers(1, 12), min_size=parties, max_size=parties))
    choices = [(r, a) for r in DIVISOR for a in rules.algorithms(r) if a not in SOLVER]
    rule_id, algo = draw(st.sampled_from(choices))
    order = draw(st.permutations(range(parties * k)))
    b = [sorted(order[p * k:(p + 1) * k]) for p in range(parties)]
    return {"m": parties * k, "b": b, "w": [str(v) for v in votes], "k": k, "rule": rule_id,
            "algo": algo, "resolute": draw(st.booleans()), "split": draw(st.booleans())}


def check_party(case, ctx):
    """Seats of the parties are those of the method of D'Hondt (Sainte-Lague for SLAV)."""
    step = DIVISOR[case["rule"]]
    votes = [int(w) for w in case["w"]]
    shown = case
    if case["split"]:
        shown = dict(case, b=[b for b, v in zip(case["b"], votes) for _ in range(v)],
                     w=["1"] * sum(votes))
    res = rules.compute(case["rule"], build(shown), case["k"], algorithm=case["algo"],
                        resolute=case["resolute"])
    got = {tuple(len(set(com) & set(b)) for b in case["b"]) for com in fmt(res)}
    # all apportionments reachable by highest quotients with any tie-breaking
    want = {(0,) * len(votes)}
    for _ in range(case["k"]):
        nxt = set()
        for seats in want:
            quot = [Fraction(v, 1 + step * s) for v, s in zip(votes, seats)]
            for p, q in enumerate(quot):
                if q == max(quot):
                    nxt.add(seats[:p] + (seats[p] + 1,) + seats[p + 1:])
        want = nxt
    if case["resolute"]:
        require(got <= want, lambda: f"{case['rule']}: seats {got}, apportionment gives {want}")
    else:
        require(got == want, lambda: f"{case['rule']}: seats {got}, apportionment gives {want}")
    ctx.label(f"{case['rule']}/{case['algo']}")
    ctx.nontrivial(case["k"] > 1)


MONOTONE = ["seqpav", "seqslav", "seqcc", "seqgeom2", "revseqpav", "revseqslav", "revseqgeom2",
            "seqphragmen", "maximin-support", "consensus-rule"]


@st.composite
def monotone_cases(draw):
    choices = [(r, a) for r in MONOTONE for a in rules.algorithms(r)
               if a not in SOLVER and rules.supports(r, True) and a != rules.FLOAT]
    rule_id, algo = draw(st.sampled_from(choices))
    case = draw(gen.instances(max_m=8, min_m=3, max_n=8, min_n=2,
                              modes=("unit", "unit", "int", "frac"), wide=True))
    return dict(case, rule=rule_id, algo=algo)


def check_monotone(case, ctx):
    previous = None
    top = min(case["m"], 6)
    for k in range(1, top + 1):
        res = rules.compute(case["rule"], build(case), k, algorithm=case["algo"], resolute=True)
        com = set(res[0])
        require(previous is None or previous <= com,
                lambda: f"{case['rule']}/{case['algo']}: committee {sorted(previous)} for k={k - 1} "
                        f"is not contained in {sorted(com)} for k={k}")
        previous = com
    ctx.label(f"{case['rule']}/{case['algo']}")
    ctx.nontrivial(len({tuple(b) for b in case["b"]}) > 1)


LAMINAR = ["seqphragmen", "equal-shares", "equal-shares-without-completion",
           "equal-shares-with-av-completion"]


@st.composite
def laminar_cases(draw):
    """Laminar elections (Peters and Skowron 2020) as trees.

    ["all", voters, seats, candidates]      these voters approve all these candidates
    ["top", candidate, subtree]             a candidate approved by all voters of the subtree
    ["split", subtree, subtree]             disjoint electorates with equal ratios voters/seats
    """
    rule_id = draw(st.sampled_from(LAMINAR))
    algo = draw(st.sampled_from(rules.exact_algorithms(rule_id)))
    counter = {"c": 0}

    def new(num):
        counter["c"] += num
        return list(range(counter["c"] - num, counter["c"]))

    def tree(n, k, depth):
        splits = [j for j in range(1, k) if n * j % k == 0]
        kinds = ["all"] + (["top", "top"] if k > 1 and depth < 4 else []) + (
            ["split"] * 3 if splits and depth < 4 else [])
        kind = draw(st.sampled_from(kinds))
        if kind == "all":
            return ["all", n, k, new(k + draw(st.integers(0, 1)))]
        if kind == "top":
            c, sub = new(1)[0], tree(n, k - 1, depth + 1)
            if sub[0] == "all":  # unanimous altogether
                return ["all", n, k, sub[3] + [c]]
            return ["top", c, sub]
        j = draw(st.sampled_from(splits))
        return ["split", tree(n * j // k, j, depth + 1), tree(n * (k - j) // k, k - j, depth + 1)]

    k = draw(st.integers(2, 6))
    shape = tree(draw(st.sampled_from([6, 12, 12, 24, 60])), k, 0)
    m = counter["c"]
    return {"tree": shape, "k": k, "m": m, "perm": draw(st.permutations(range(m))),
            "rule": rule_id, "algo": algo, "merge": draw(st.booleans()),
            "resolute": draw(st.booleans()), "order": draw(st.integers(0, 3))}


def laminar_groups(shape):
    """[(number of voters, approved candidates)]"""
    if shape[0] == "all":
        return [(shape[1], list(shape[3]))]
    if shape[0] == "top":
        return [(n, b + [shape[1]]) for n, b in laminar_groups(shape[2])]
    return laminar_groups(shape[1]) + laminar_groups(shape[2])


def laminar_proportional(shape, com):
    """com: the committee members among the candidates of this election."""
    cands = {c for _, b in laminar_groups(shape) for c in b}
    mine = com & cands
    if shape[0] == "all":
        return len(mine) == shape[2]
    if shape[0] == "top":
        return shape[1] in com and laminar_proportional(shape[2], com)
    return laminar_proportional(shape[1], com) and laminar_proportional(shape[2], com)


def check_laminar(case, ctx):
    groups = laminar_groups(case["tree"])
    perm = case["perm"]
    voters = [sorted(perm[c] for c in b) for n, b in groups
              for _ in range(1 if case["merge"] else n)]
    weights = [str(n) if case["merge"] else "1" for n, _ in groups
               for _ in range(1 if case["merge"] else n)]
    if case["order"] == 1:
        voters, weights = voters[::-1], weights[::-1]
    shown = {"m": case["m"], "b": voters, "w": weights, "k": case["k"]}
    res = rules.compute(case["rule"], build(shown), case["k"], algorithm=case["algo"],
                        resolute=case["resolute"], max_num_of_committees=None)
    back = {p: c for c, p in enumerate(perm)}
    for com in res:
        original = {back[c] for c in com}
        require(len(original) == case["k"] and laminar_proportional(case["tree"], original),
                lambda: f"{case['rule']}/{case['algo']}: committee {sorted(com)} is not laminar "
                        f"proportional for {shown}")
    ctx.label(f"{case['rule']}/{case['algo']}")
    ctx.nontrivial(len(groups) > 1)


@st.composite
def remainder_cases(draw):
    """Disjoint parties; the number of seats divides the number of voters."""
    rule_id = draw(st.sampled_from(["monroe", "greedy-monroe"]))
    algo = draw(st.sampled_from(rules.algorithms(rule_id)))
    parties = draw(st.integers(2, 3))
    k = draw(st.integers(1, 3 if algo in SOLVER else 4))
    size = draw(st.integers(1, 4))
    votes = [0] * parties
    for _ in range(k * size):
        votes[draw(st.integers(0, parties - 1))] += 1
    order = draw(st.permutations(range(parties * k)))
    b = [sorted(order[p * k:(p + 1) * k]) for p in range(parties)]
    return {"parties": b, "votes": votes, "k": k, "m": parties * k, "rule": rule_id, "algo": algo,
            "mix": draw(st.integers(0, 2**16))}


def check_remainder(case, ctx):
    """Seats are those of the largest remainder method (Hare quota)."""
    votes, k = case["votes"], case["k"]
    voters = [b for b, v in zip(case["parties"], votes) for _ in range(v)]
    random.Random(case["mix"]).shuffle(voters)
    resolute = False not in rules.rule(case["rule"]).resolute_values
    res = rules.compute(case["rule"], build({"m": case["m"], "b": voters,
                                             "w": ["1"] * len(voters)}), k,
                        algorithm=case["algo"], resolute=resolute, max_num_of_committees=None)
    got = {tuple(len(set(com) & set(b)) for b in case["parties"]) for com in fmt(res)}
    size = len(voters) // k
    floor = [v // size for v in votes]
    rest = k - sum(floor)
    remainder = [v % size for v in votes]
    parties = range(len(votes))
    want = {tuple(floor[p] + (p in extra) for p in parties)
            for extra in combinations(parties, rest)
            if all(remainder[p] >= remainder[q] for p in extra for q in parties
                   if q not in extra)}
    ok = got <= want if resolute else got == want
    require(ok, lambda: f"{case['rule']}/{case['algo']}: seats {got} for votes {votes}, largest "
                        f"remainder method gives {want}")
    ctx.label(f"{case['rule']}/{case['algo']}")
    ctx.nontrivial(k > 1)


NT = "non-trivial: not every committee wins and more than one voter"
FACETS = [
    Facet("axioms", cases(False, (6, 7, 5)), check, 5000, 100000,
          f"up to 6 candidates, 7 voters, all winning committees; {NT}"),
    Facet("axioms-larger", cases(False, (9, 24, 5)), check, 800, 20000,
          f"up to 9 candidates, 24 voters, EJR+ and Pareto optimality; {NT}"),
    Facet("axioms-solver", cases(True, (5, 6, 4)), check, 1200, 20000,
          f"ILP/CP algorithms; {NT}"),
    Facet("apportionment", party_cases(), check_party, 2500, 40000,
          "party-list profiles: D'Hondt for PAV, seq-PAV, seq-Phragmen and maximin support, "
          "Sainte-Lague for (seq-)SLAV; non-trivial: at least two seats"),
    Facet("monotonicity", monotone_cases(), check_monotone, 1500, 30000,
          "resolute committees of sizes 1, 2, 3, ... are nested; non-trivial: at least two "
          "different ballots"),
    Facet("laminar", laminar_cases(), check_laminar, 1500, 30000,
          "laminar elections: seq-Phragmen and Equal Shares elect laminar proportional committees; "
          "non-trivial: at least two groups of voters"),
    Facet("largest-remainder", remainder_cases(), check_remainder, 600, 10000,
          "party-list profiles with k dividing the number of voters: Monroe and Greedy Monroe give "
          "the seats of the largest remainder method; non-trivial: at least two seats"),
]
