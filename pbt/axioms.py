"""Reference decisions of axioms: direct translations of the definitions, exact arithmetic.

Groups of voters are enumerated explicitly (2^n), sets of candidates as bit masks.
"""

from fractions import Fraction
from itertools import combinations


class Setting:
    def __init__(self, case, com, quota=None):
        self.m = case["m"]
        self.A = [sum(1 << c for c in b) for b in case["b"]]
        self.w = [Fraction(x) for x in case["w"]]
        self.n = len(self.A)
        self.W = sum(1 << c for c in com)
        self.size = len(com)
        self.q = sum(self.w) / len(com) if quota is None else Fraction(quota)
        self.util = [(a & self.W).bit_count() for a in self.A]

    def groups(self):
        """All non-empty groups of voters with: members, deserved seats."""
        for mask in range(1, 1 << self.n):
            members = [i for i in range(self.n) if mask >> i & 1]
            yield members, sum(self.w[i] for i in members) // self.q

    def cut(self, members):
        cut = (1 << self.m) - 1
        for i in members:
            cut &= self.A[i]
        return cut

    def union(self, members):
        out = 0
        for i in members:
            out |= self.A[i]
        return out


def jr(s):
    """No group with weight >= quota approves a common candidate, but no committee member."""
    return not any(
        deserved >= 1 and s.cut(g) and not s.union(g) & s.W for g, deserved in s.groups()
    )


def pjr(s):
    for g, deserved in s.groups():
        ell = min(deserved, s.cut(g).bit_count())
        if (s.union(g) & s.W).bit_count() < ell:
            return False
    return True


def ejr(s):
    for g, deserved in s.groups():
        ell = min(deserved, s.cut(g).bit_count())
        if max(s.util[i] for i in g) < ell:
            return False
    return True


def ejr_plus(s):
    for g, deserved in s.groups():
        if s.cut(g) & ~s.W and max(s.util[i] for i in g) < deserved:
            return False
    return True


def fjr_witnesses(s):
    """Pairs (beta, |T|) that violate FJR."""
    for T in range(1, 1 << s.m):
        size = T.bit_count()
        gain = [(a & T).bit_count() for a in s.A]
        for beta in range(1, size + 1):
            weight = sum(
                (s.w[i] for i in range(s.n) if gain[i] >= beta and s.util[i] < beta), Fraction(0)
            )
            if weight and weight >= size * s.q:
                yield beta, size


def fjr(s):
    return next(fjr_witnesses(s), None) is None


def core(s):
    for T in range(1, 1 << s.m):
        weight = sum(
            (s.w[i] for i in range(s.n) if (s.A[i] & T).bit_count() > s.util[i]), Fraction(0)
        )
        if weight and weight >= T.bit_count() * s.q:
            return False
    return True


def dominates(s, other):
    """Does the committee (mask) weakly improve everyone and strictly improve someone?"""
    new = [(a & other).bit_count() for a in s.A]
    return all(x >= y for x, y in zip(new, s.util)) and new != s.util


def pareto(s):
    for other in combinations(range(s.m), s.size):
        if dominates(s, sum(1 << c for c in other)):
            return False
    return True


# --- priceability: exact linear programming -------------------------------------------------


def lp_feasible(rows, num_vars):
    """Is there x >= 0 with a*x <= b for all rows (a: dict index -> coefficient, b)?

    Exact two-phase simplex (phase one only) with Bland's rule. Equalities are two rows.
    """
    m = len(rows)
    # columns: variables, slacks, artificials (only for rows with negative right-hand side)
    art = [i for i, (_, b) in enumerate(rows) if b < 0]
    total = num_vars + m + len(art)
    table, basis = [], []
    for i, (a, b) in enumerate(rows):
        sign = -1 if b < 0 else 1
        row = [Fraction(0)] * (total + 1)
        for j, v in a.items():
            row[j] += sign * Fraction(v)
        row[num_vars + i] = Fraction(sign)
        row[-1] = sign * Fraction(b)
        if b < 0:
            col = num_vars + m + art.index(i)
            row[col] = Fraction(1)
            basis.append(col)
        else:
            basis.append(num_vars + i)
        table.append(row)
    first_art = num_vars + m
    cost = [Fraction(0)] * (total + 1)
    for i in art:
        for j in range(total + 1):
            if j < first_art or j == total:
                cost[j] -= table[i][j]
    while True:
        if cost[-1] == 0:
            return True
        enter = next((j for j in range(first_art) if cost[j] < 0), None)
        if enter is None:
            return cost[-1] == 0
        leave, ratio = None, None
        for i in range(m):
            if table[i][enter] > 0:
                r = table[i][-1] / table[i][enter]
                if ratio is None or r < ratio or (r == ratio and basis[i] < basis[leave]):
                    leave, ratio = i, r
        if leave is None:
            raise AssertionError("phase one is bounded")
        piv = table[leave][enter]
        table[leave] = [x / piv for x in table[leave]]
        prow = table[leave]
        for i in range(m):
            if i != leave and table[i][enter]:
                f = table[i][enter]
                table[i] = [x - f * y if y else x for x, y in zip(table[i], prow)]
        f = cost[enter]
        if f:
            cost = [x - f * y if y else x for x, y in zip(cost, prow)]
        basis[leave] = enter


def priceable(s, stable=False):
    """Definition 4.8 of the survey / Equation (3) of Market-Based Explanations, price 1.

    If fewer candidates are approved than there are seats: all approved candidates are elected.
    """
    approved = 0
    for a in s.A:
        approved |= a
    if approved.bit_count() < s.size:
        return not approved & ~s.W
    if s.W & ~approved:
        return False
    members = [c for c in range(s.m) if s.W >> c & 1]
    var = {"budget": 0}

    def index(key):
        return var.setdefault(key, len(var))

    rows = []
    for i in range(s.n):
        pay = {index((i, c)): 1 for c in members if s.A[i] >> c & 1}
        rows.append(({**pay, 0: -s.w[i]}, 0))
    for c in members:
        total = {index((i, c)): 1 for i in range(s.n) if s.A[i] >> c & 1}
        rows.append((total, 1))
        rows.append(({j: -1 for j in total}, -1))
    if stable:
        # e_i >= every payment of i, e_i >= leftover budget of i
        for i in range(s.n):
            mine = [index((i, c)) for c in members if s.A[i] >> c & 1]
            e = index(("e", i))
            for j in mine:
                rows.append(({j: 1, e: -1}, 0))
            rows.append(({**{j: -1 for j in mine}, 0: s.w[i], e: -1}, 0))
    for c in range(s.m):
        if s.W >> c & 1:
            continue
        supporters = [i for i in range(s.n) if s.A[i] >> c & 1]
        if not supporters:
            continue
        if stable:
            rows.append(({index(("e", i)): 1 for i in supporters}, 1))
        else:
            row = {0: sum(s.w[i] for i in supporters)}
            for i in supporters:
                for d in members:
                    if s.A[i] >> d & 1:
                        row[index((i, d))] = -1
            rows.append((row, 1))
    return lp_feasible(rows, len(var))


def stable_priceable(s):
    return priceable(s, stable=True)


REFERENCE = {
    "jr": jr, "pjr": pjr, "ejr": ejr, "ejr+": ejr_plus, "fjr": fjr, "core": core,
    "pareto": pareto, "priceability": priceable, "stable-priceability": stable_priceable,
}
ALGORITHMS = {
    "jr": (None,), "ejr+": (None,), "priceability": ("gurobi", "fastest"),
    "stable-priceability": ("gurobi", "fastest"),
    **{p: ("brute-force", "gurobi", "fastest") for p in ("pjr", "ejr", "fjr", "core", "pareto")},
}
WITH_QUOTA = ("jr", "pjr", "ejr", "ejr+", "fjr", "core")


# --- versions that are polynomial in the number of voters: the property holds exactly if the quota
# is larger than the greatest ratio of a group's weight to the number of seats it would claim ----


def subsets(mask, size):
    bits = [1 << c for c in range(mask.bit_length()) if mask >> c & 1]
    return (sum(x) for x in combinations(bits, size))


def jr_ratios(s):
    for c in range(s.m):
        yield sum(s.w[i] for i in range(s.n) if s.A[i] >> c & 1 and not s.util[i])


def ejr_plus_ratios(s):
    for c in range(s.m):
        if not s.W >> c & 1:
            group = [i for i in range(s.n) if s.A[i] >> c & 1]
            for ell in range(1, s.size + 2):
                yield sum(s.w[i] for i in group if s.util[i] < ell) / Fraction(ell)


def ejr_ratios(s):
    for ell in range(1, s.m + 1):
        few = [i for i in range(s.n) if s.util[i] < ell and s.A[i].bit_count() >= ell]
        for T in subsets((1 << s.m) - 1, ell):
            yield sum(s.w[i] for i in few if s.A[i] & T == T) / Fraction(ell)


def pjr_ratios(s):
    best = Fraction(0)
    for ell in range(1, s.m + 1):
        few = [i for i in range(s.n) if s.util[i] < ell and s.A[i].bit_count() >= ell]
        for T in subsets((1 << s.m) - 1, ell):
            group = [i for i in few if s.A[i] & T == T]
            if sum(s.w[i] for i in group) <= best * ell:
                continue
            for U in subsets(s.W, min(ell - 1, s.size)):
                ratio = sum(s.w[i] for i in group if not s.A[i] & s.W & ~U) / Fraction(ell)
                if ratio > best:
                    best = ratio
                    yield ratio


def fjr_ratios(s):
    for T in range(1, 1 << s.m):
        size = T.bit_count()
        gain = [(a & T).bit_count() for a in s.A]
        for beta in range(1, size + 1):
            yield sum(s.w[i] for i in range(s.n) if gain[i] >= beta > s.util[i]) / Fraction(size)


def core_ratios(s):
    for T in range(1, 1 << s.m):
        yield sum(s.w[i] for i in range(s.n)
                  if (s.A[i] & T).bit_count() > s.util[i]) / Fraction(T.bit_count())


RATIOS = {"jr": jr_ratios, "pjr": pjr_ratios, "ejr": ejr_ratios, "ejr+": ejr_plus_ratios,
          "fjr": fjr_ratios, "core": core_ratios}


def threshold(s, prop):
    """The property holds exactly for quotas above this number."""
    return max(RATIOS[prop](s), default=Fraction(0))
