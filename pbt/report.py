"""Parsing of the printed reports of rules and comparison with exact recomputations (C31)."""

import re
from fractions import Fraction
from itertools import combinations

from pbt import ref
from pbt.core import Violation, require

NAMES = ["x10", "Bob", "c2", "alice", "Zoe", "x9", "c11", "Ünal", "3rd", "D", "e", "f_g", "Q7"]


def num(text):
    """Exact value of a printed number; None for an infinite one."""
    text = text.rstrip(",.")
    if text == "inf":
        return None
    try:
        return Fraction(text)
    except (ValueError, ZeroDivisionError):
        raise Violation(f"report: {text!r} is not a number") from None


def close(a, b, tol=1e-9):
    if a is None or b is None:
        return a is b
    return abs(a - b) <= tol * (1 + abs(b))


class Report:
    """The report of one run: text printed from the header box onwards."""

    def __init__(self, text, case, names, rule_id, longname):
        self.text = text
        self.inst = ref.Inst(case)
        self.names = names
        self.known = []  # ids of known findings met
        self.index = {name: i for i, name in enumerate(names)}
        self.rule_id = rule_id
        lines = text.split("\n")
        spots = [i for i, line in enumerate(lines) if line.strip() == longname]
        require(len(spots) == 1, lambda: f"report: rule name {longname!r} printed {len(spots)} "
                                         f"times in {text!r}")
        self.flat = " ".join(" ".join(lines[spots[0] + 1:]).split())

    def fail(self, msg):
        raise Violation(f"{self.rule_id}: printed report: {msg}; report: {self.flat[:1500]}")

    def need(self, cond, msg):
        if not cond:
            self.fail(msg() if callable(msg) else msg)

    def cand(self, name):
        self.need(name in self.index, lambda: f"unknown candidate name {name!r}")
        return self.index[name]

    def set(self, text):
        parts = text.split(", ") if text else []
        out = [self.cand(p) for p in parts]
        self.need(len(set(out)) == len(out), lambda: f"candidates repeated in {{{text}}}")
        return frozenset(out)

    def vector(self, text):
        vals = [num(x) for x in text.split(", ")]
        self.need(len(vals) == self.inst.n, lambda: f"{len(vals)} values for {self.inst.n} voters")
        return vals

    def eq(self, what, got, want, tol=1e-9):
        self.need(close(got, want, tol), lambda: f"{what}: printed {got}, correct {want}")

    def eqs(self, what, got, want, tol=1e-9):
        self.need(all(close(a, b, tol) for a, b in zip(got, want)),
                  lambda: f"{what}: printed {list(map(str, got))}, correct {list(map(str, want))}")

    def one(self, pattern, what):
        found = re.findall(pattern, self.flat)
        self.need(len(found) == 1, lambda: f"{what}: found {len(found)} times")
        return found[0]

    def committees(self):
        """The committees in the order in which they are printed."""
        found = re.findall(r"(\d+) winning committee(s?):((?: \{[^}]*\}(?!:))+)", self.flat)
        self.need(len(found) == 1, lambda: f"{len(found)} lists of winning committees")
        count, plural, text = found[0]
        sets = [self.set(x) for x in re.findall(r"\{([^}]*)\}", text)]
        self.need(int(count) == len(sets), lambda: f"{count} committees announced, "
                                                   f"{len(sets)} listed")
        self.need((plural == "") == (len(sets) == 1), "singular/plural mismatch")
        return sets

    def steps(self, lead, tail):
        """Steps [(number, cand, groups of lead, tied set or None, tie value or None)]."""
        tie = (r"(?: tie broken (?:in favor of|to the disadvantage of) (\S+),"
               r" candidates \{([^}]*)\} are tied " + tail + ")?")
        out = []
        groups = re.compile(lead).groups
        for mt in re.finditer(lead + tie, self.flat):
            g = mt.groups()
            number, cand = int(g[0]), self.cand(g[1])
            tied = value = None
            if g[groups] is not None:
                self.need(self.cand(g[groups]) == cand,
                          lambda: f"tie said to be decided for {g[groups]} instead of {g[1]}")
                tied, value = self.set(g[groups + 1]), num(g[groups + 2])
            out.append((number, cand, g[2:groups], tied, value))
        self.need(self.flat.count(" are tied ") == sum(1 for s in out if s[3] is not None)
                  or "Phase" in self.flat, "unparsed tie-breaking information")
        return out

    def ties(self, cand, tied, exact, omits_removed=False):
        """Compare a printed tie with the exact one.

        omits_removed: the known finding "revseq-ties" (the removed candidate itself is left out
        of the tie, and ties between two candidates are not printed at all).
        """
        if omits_removed and cand in exact and len(exact) > 1:
            rest = frozenset(exact) - {cand}
            if tied == (rest if len(rest) > 1 else None):
                self.known.append("revseq-ties")
                return
        self.need(cand in exact, lambda: f"{self.names[cand]} is not among the best options "
                                         f"{[self.names[c] for c in exact]}")
        if len(exact) > 1:
            self.need(tied is not None, lambda: f"tie between {[self.names[c] for c in exact]} "
                                                "not reported")
            self.need(tied == frozenset(exact),
                      lambda: f"reported tie {[self.names[c] for c in tied]}, "
                              f"correct {[self.names[c] for c in exact]}")
        else:
            self.need(tied is None, "a tie is reported where there is none")


# --- per rule -----------------------------------------------------------------------------


def thiele(rep, coms, resolute):
    inst, fid = rep.inst, rep.rule_id
    label, value = rep.one(r"Optimal (\S+)-score: (\S+)", "optimal score")
    rep.need(label == fid.upper(), lambda: f"score called {label}")
    f = ref.thiele_weights(fid, inst.m)
    best = max(ref.thiele_score(inst, f, com) for com in inst.committees())
    rep.eq("optimal score", num(value), best)


def lexcc(rep, coms, resolute):
    inst = rep.inst
    found = re.findall(r"at-least-(\d+): (\S+)", rep.flat)
    rep.need([int(a) for a, _ in found] == list(range(1, inst.k + 1)), "at-least-ell list")
    for ell, val in found:
        f = ref.thiele_weights(f"atleast{ell}", inst.m)
        for com in coms:
            rep.eq(f"at-least-{ell} score", num(val), ref.thiele_score(inst, f, com), 1e-6)


def seq_thiele(rep, coms, resolute):
    inst = rep.inst
    fid = rep.rule_id[3:]
    f = ref.thiele_weights(fid, inst.m)
    label = rep.one(r"(\S+)-score of winning committee\(s\):", "scores of committees")
    rep.need(label == fid.upper(), lambda: f"score called {label}")
    found = re.findall(r"\{([^}]*)\}: (\S+)", rep.flat)
    rep.need(len(found) == len(coms) and {rep.set(c) for c, _ in found} == set(coms),
             "scores for other committees than the winning ones")
    for com, val in found:
        rep.eq("score", num(val), ref.thiele_score(inst, f, rep.set(com)))
    if not resolute:
        return
    rep.eq("initial score", num(rep.one(r"empty committee \(score = ([^)]*)\)", "start")), 0)
    steps = rep.steps(
        r"adding candidate number (\d+): (\S+) score increases by (\S+) to a total of (\S+)",
        r"\(all would increase the score by the same amount (\S+)\)")
    rep.need([s[0] for s in steps] == list(range(1, inst.k + 1)), "numbers of the steps")
    com = frozenset()
    for _, cand, (delta, total), tied, value in steps:
        base = ref.thiele_score(inst, f, com)
        gain = {c: ref.thiele_score(inst, f, com | {c}) - base for c in inst.C if c not in com}
        top = max(gain.values())
        rep.ties(cand, tied, [c for c in gain if gain[c] == top])
        rep.eq("increase", num(delta), top)
        rep.eq("total", num(total), base + top)
        if tied is not None:
            rep.eq("tied increase", value, top)
        com |= {cand}
    rep.need([com] == coms, "steps do not lead to the winning committee")


def revseq_thiele(rep, coms, resolute):
    inst = rep.inst
    fid = rep.rule_id[6:]
    f = ref.thiele_weights(fid, inst.m)
    label, text = rep.one(r"(\S+)-score of winning committee:((?: \S+)+)", "scores of committees")
    rep.need(label == fid.upper(), lambda: f"score called {label}")
    vals = [num(x) for x in text.split()]
    rep.need(len(vals) == len(coms), lambda: f"{len(vals)} scores for {len(coms)} committees")
    want = [ref.thiele_score(inst, f, com) for com in coms]
    rep.eqs("scores", vals, want)
    if not resolute:
        return
    size, val = rep.one(r"full committee \((\d+) candidates\) has a total score of (\S+)", "start")
    rep.need(int(size) == inst.m, "size of the full committee")
    com = frozenset(inst.C)
    rep.eq("score of all", num(val), ref.thiele_score(inst, f, com))
    steps = rep.steps(
        r"removing candidate number (\d+): (\S+) score decreases by (\S+) to a total of (\S+)",
        r"\(all would decrease the score by the same amount (\S+)\)")
    rep.need([s[0] for s in steps] == list(range(1, inst.m - inst.k + 1)), "numbers of the steps")
    for _, cand, (delta, total), tied, value in steps:
        base = ref.thiele_score(inst, f, com)
        loss = {c: base - ref.thiele_score(inst, f, com - {c}) for c in com}
        low = min(loss.values())
        rep.ties(cand, tied, [c for c in loss if loss[c] == low], omits_removed=True)
        rep.eq("decrease", num(delta), low)
        rep.eq("total", num(total), base - low)
        if tied is not None:
            rep.eq("tied decrease", value, low)
        com -= {cand}
    rep.need([com] == coms, "steps do not lead to the winning committee")


def separable(rep, coms, resolute):
    inst = rep.inst
    scores = ref.separable_scores(inst, rep.rule_id)
    text, cutoff = rep.one(
        r"Scores of candidates: (.*?) Candidates are contained in winning committees "
        r"if their score is >= (\S+)\.(?= |$)", "scores of candidates")
    found = re.findall(r"(\S+): (\S+)", text)
    rep.need([c for c, _ in found] == rep.names, "candidates in the list of scores")
    printed = [num(v) for _, v in found]
    rep.eqs("scores", printed, scores)
    rep.need(num(cutoff) == sorted(printed)[-inst.k], lambda: f"cutoff {cutoff}")
    if any(a != b and close(a, b) for a, b in combinations(printed, 2)):
        return  # (known) ties missed by floats: do not judge who is certain
    cut = num(cutoff)
    above = {c for c in inst.C if printed[c] > cut}
    equal = {c for c in inst.C if printed[c] == cut}
    if len(above) + len(equal) == inst.k:
        above, equal = above | equal, set()
    certain = re.findall(
        r"contained in every winning committee: (.*?)(?= The following| \d+ winning committee)",
        rep.flat)
    got = set(rep.set(certain[0])) if certain else set()
    rep.need(len(certain) <= 1 and got == above, lambda: f"certain candidates {got}, not {above}")
    possible = re.findall(
        r"contained in some of the winning committees: (.*?) \((\d+) of those candidates are "
        r"contained in every winning committee\.\)", rep.flat)
    got = set(rep.set(possible[0][0])) if possible else set()
    rep.need(len(possible) <= 1 and got == equal, lambda: f"possible candidates {got}, "
                                                          f"not {equal}")
    if possible:
        rep.need(int(possible[0][1]) == inst.k - len(above), "number of remaining seats")


def hamming(rep, coms, resolute):
    inst = rep.inst
    value = num(rep.one(r"Minimum maximal distance: (\S+)", "distance"))
    best = min(max(ref.hamming(b, com) for b in inst.b) for com in inst.committees())
    rep.eq("minimum maximal distance", value, best)
    lists = re.findall(r"\[([^\]]*)\]", rep.flat)
    rep.need(len(lists) == len(coms), lambda: f"{len(lists)} lists of distances for "
                                              f"{len(coms)} committees")
    for text, com in zip(lists, coms):
        rep.eqs(f"distances to {sorted(com)}", rep.vector(text),
                [ref.hamming(b, com) for b in inst.b])


def monroe(rep, coms, resolute):
    value = num(rep.one(r"Optimal Monroe score: (\S+)", "score"))
    rep.eq("optimal Monroe score", value,
           max(ref.monroe_score(rep.inst, com) for com in rep.inst.committees()))


def greedy_monroe(rep, coms, resolute):
    inst = rep.inst
    value = num(rep.one(r"has a Monroe score of (\S+)\.(?= |$)", "score"))
    found = re.findall(
        r"candidate (\S+) assigned to:(?: (\d+\*?(?:, \d+\*?)*))?(?= candidate| \d+ winning)",
        rep.flat)
    rep.need([frozenset(rep.cand(c) for c, _ in found)] == coms, "assigned candidates")
    seen, satisfied = [], 0
    for name, text in found:
        cand = rep.cand(name)
        voters = text.split(", ") if text else []
        rep.need(inst.n // inst.k <= len(voters) <= -(-inst.n // inst.k),
                 lambda: f"{len(voters)} voters assigned to {name}")
        for item in voters:
            v = int(item.rstrip("*"))
            seen.append(v)
            likes = cand in inst.b[v]
            satisfied += likes
            rep.need(likes == (not item.endswith("*")), lambda: f"voter {v} marked wrongly")
    rep.need(sorted(seen) == list(range(inst.n)), "not a partition of the voters")
    rep.eq("Monroe score of the assignment", value, satisfied)
    score = ref.monroe_score if inst.n <= 9 else ref.monroe_score_flow
    best = score(inst, sorted(coms[0]))
    opt = re.findall(r"Optimal Monroe score of the winning committee is (\S+)\.(?= |$)", rep.flat)
    rep.need(len(opt) == (1 if best > satisfied else 0),
             "note on the optimality of the assignment")
    if opt:
        rep.eq("optimal Monroe score of the committee", num(opt[0]), best)


def _phragmen_options(inst, com, load):
    val = {}
    for c in inst.C:
        if c not in com:
            sw = sum((inst.w[i] for i in inst.sup[c]), Fraction(0))
            val[c] = (1 + sum(inst.w[i] * load[i] for i in inst.sup[c])) / sw if sw else None
    finite = [v for v in val.values() if v is not None]
    low = min(finite) if finite else None
    return low, [c for c in val if val[c] == low]


def _phragmen_step(inst, load, cand, low):
    return [low if cand in inst.b[i] else load[i] for i in range(inst.n)]


PHRAGMEN_LEAD = (r"adding candidate number (\d+): (\S+) maximum load increased to (\S+) "
                 r"load distribution: \(([^)]*)\)")


def _phragmen_steps(rep, steps, com, load):
    inst = rep.inst
    for number, cand, (maxload, loads), tied, value in steps:
        rep.need(number == len(com) + 1, lambda: f"step number {number}")
        low, best = _phragmen_options(inst, com, load)
        rep.ties(cand, tied, best)
        rep.eq("maximum load", num(maxload), low)
        load = _phragmen_step(inst, load, cand, low)
        rep.eqs("load distribution", rep.vector(loads), load)
        if tied is not None:
            rep.eq("tied maximum load", value, low)
        com |= {cand}
    return com, load


def seqphragmen(rep, coms, resolute):
    inst = rep.inst
    head, tail = rep.flat.split(" winning committee", 1)
    label = re.findall(r"corresponding load distribution(s?): ", tail)
    rep.need(len(label) == 1 and (label[0] == "s") == (len(coms) > 1), "load distributions")
    pairs = [(rep.set(c), rep.vector(v)) for c, v in re.findall(r"\{([^}]*)\}: \(([^)]*)\)", tail)]
    rep.need(sorted(map(sorted, (c for c, _ in pairs))) == sorted(map(sorted, coms)),
             "load distributions for other committees than the winning ones")
    if resolute:
        steps = rep.steps(PHRAGMEN_LEAD, r"\(for all those new maximum load = ([^)]*)\)\.")
        com, load = _phragmen_steps(rep, steps, frozenset(), [Fraction(0)] * inst.n)
        rep.need([com] == coms, "steps do not lead to the winning committee")
        rep.eqs("final load distribution", pairs[0][1], load)
        return
    layer = {(frozenset(), (Fraction(0),) * inst.n)}
    for _ in range(inst.k):
        nxt = set()
        for com, load in layer:
            low, best = _phragmen_options(inst, com, load)
            for c in best:
                nxt.add((com | {c}, tuple(_phragmen_step(inst, load, c, low))))
        layer = nxt
    for com, loads in pairs:
        rep.need(any(c == com and all(close(a, b) for a, b in zip(loads, ld))
                     for c, ld in layer),
                 lambda: f"load distribution of {sorted(com)} cannot arise: {loads}")


def equal_shares(rep, coms, resolute):
    inst = rep.inst
    increment = "increment" in rep.rule_id
    few = len([c for c in inst.C if inst.sup[c]]) < inst.k
    if increment:
        rep.need(("fewer candidates approved" in rep.flat) == few, "remark on approved candidates")
        if not few:
            size = int(rep.one(r"\(virtual\) committee size of (\d+)\.", "virtual size"))
            want = ref.mes_increment(inst)[1]
            rep.need(size == want, lambda: f"virtual committee size {size}, correct {want}")
        return
    if not resolute:
        return
    budget = [w * inst.k / inst.W for w in inst.w]
    rep.eqs("starting budget",
            rep.vector(rep.one(r"starting budget: \(([^)]*)\)", "starting budget")), budget)
    steps = rep.steps(
        r"adding candidate number (\d+): (\S+) with max\w+ cost per voter q = (\S+) "
        r"remaining budget: \(([^)]*)\)", r"\(all would impose a maximum cost of ([^)]*)\)\.")
    com = frozenset()
    for number, cand, (cost, budgets), tied, value in steps:
        rep.need(number == len(com) + 1, lambda: f"step number {number}")
        best, low = ref._mes_options(inst, com, budget)
        rep.ties(cand, tied, best)
        rep.eq("cost", num(cost), low)
        if tied is not None:
            rep.eq("tied cost", value, low)
        budget = list(ref._mes_pay(inst, budget, cand, low))
        rep.eqs("remaining budget", rep.vector(budgets), budget)
        com |= {cand}
    rep.need(len(com) == inst.k or not ref._mes_options(inst, com, budget)[0],
             "phase 1 stops although a candidate is affordable")
    phase2 = "Phase 2" in rep.flat
    rep.need(phase2 == (rep.rule_id == "equal-shares" and len(com) < inst.k),
             "presence of the second phase")
    if phase2:
        start = rep.vector(rep.one(r"starting loads [^:]*: \(([^)]*)\)", "starting loads"))
        load = [-b / w for b, w in zip(budget, inst.w)]
        shift = start[0] - load[0]  # loads are equivalent up to a common constant
        load = [x + shift for x in load]
        rep.eqs("starting loads (up to a common constant)", start, load)
        steps = rep.steps(PHRAGMEN_LEAD,
                          r"\(for any of those, the new maximum load would be ([^)]*)\)\.")
        com, _ = _phragmen_steps(rep, steps, com, load)
    if rep.rule_id == "equal-shares-with-av-completion":
        rep.need(len(coms) == 1 and com <= coms[0], "phase 1 is not part of the committee")
    else:
        rep.need([com] == coms, "steps do not lead to the winning committee")


def maximin(rep, coms, resolute):
    inst = rep.inst
    if not resolute:
        return
    steps = rep.steps(
        r"adding candidate number (\d+): (\S+) giving a committee with maximin support value (\S+)",
        r"\(all would give the same maximin support value (\S+)\)")
    rep.need([s[0] for s in steps] == list(range(1, inst.k + 1)), "numbers of the steps")
    com = frozenset()
    for _, cand, (value,), tied, tie_value in steps:
        val = {c: ref.min_support(inst, sorted(com | {c})) for c in inst.C if c not in com}
        top = max(val.values())
        rep.ties(cand, tied, [c for c in val if val[c] == top])
        rep.eq("support", num(value), top, 1e-6)
        if tied is not None:
            rep.eq("tied support", tie_value, top, 1e-6)
        com |= {cand}
    rep.need([com] == coms, "steps do not lead to the winning committee")


def details(rule_id):
    if rule_id in ("av", "sav"):
        return separable
    if rule_id in ("minimaxav", "lexminimaxav"):
        return hamming
    if rule_id in ("lexcc", "monroe", "seqphragmen"):
        return globals()[rule_id]
    if rule_id == "greedy-monroe":
        return greedy_monroe
    if rule_id == "maximin-support":
        return maximin
    if rule_id.startswith("equal-shares"):
        return equal_shares
    if rule_id.startswith("revseq"):
        return revseq_thiele
    if rule_id.startswith("seq"):
        return seq_thiele
    if rule_id in ("pav", "slav", "cc") or rule_id.startswith("geom"):
        return thiele
    return None
