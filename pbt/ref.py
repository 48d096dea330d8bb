"""Reference models: exact (Fractions), brute force, written from the definitions.

They share no code with /repo. Instances are (m, ballots, weights, k); ballots are lists of
candidate sets, weights exact Fractions.
"""

from collections import Counter
from fractions import Fraction
from functools import lru_cache
from itertools import combinations, permutations, product
from math import comb as binom
from math import lcm


# Layers of parallel universes map states to the number of orders of choices that lead there.
LIMIT = None  # largest number of orders of choices; None: no limit


class TooMany(Exception):
    """More than LIMIT parallel universes; `first` is the outcome with smallest-index ties."""

    def __init__(self, first=None):
        super().__init__("too many parallel universes")
        self.first = first


def _limit(layer, first=None):
    if LIMIT is not None and sum(layer.values()) > LIMIT:
        raise TooMany(first)


class Inst:
    def __init__(self, case):
        self.m = case["m"]
        self.k = case["k"]
        self.b = [frozenset(x) for x in case["b"]]
        self.w = [Fraction(x) for x in case["w"]]
        self.n = len(self.b)
        self.C = range(self.m)
        self.W = sum(self.w)
        self.sup = [[i for i in range(self.n) if c in self.b[i]] for c in self.C]

    def committees(self):
        return combinations(self.C, self.k)


# --- Thiele -------------------------------------------------------------------------------


def thiele_weights(rule, k):
    """Marginal scores f(1..k) of a Thiele rule, as Fractions."""
    if rule == "pav":
        return [Fraction(1, i) for i in range(1, k + 1)]
    if rule == "slav":
        return [Fraction(1, 2 * i - 1) for i in range(1, k + 1)]
    if rule == "cc":
        return [Fraction(1 if i == 1 else 0) for i in range(1, k + 1)]
    if rule == "av":
        return [Fraction(1)] * k
    if rule.startswith("geom"):
        base = Fraction(rule[4:])
        return [1 / base ** (i - 1) for i in range(1, k + 1)]
    if rule.startswith("atleast"):
        ell = int(rule[7:])
        return [Fraction(1 if i == ell else 0) for i in range(1, k + 1)]
    raise ValueError(rule)


def thiele_score(inst, f, committee):
    com = frozenset(committee)
    total = Fraction(0)
    for ballot, w in zip(inst.b, inst.w):
        total += w * sum(f[: len(ballot & com)], Fraction(0))
    return total


def _scaled(inst, f):
    """Integer versions of weights and cumulative scores (same order, same ties)."""
    d = 1
    for x in inst.w:
        d = lcm(d, x.denominator)
    e = 1
    for x in f:
        e = lcm(e, x.denominator)
    wi = [int(x * d) for x in inst.w]
    cum = [0]
    for x in f:
        cum.append(cum[-1] + int(x * e))
    return wi, cum


def thiele_winners(inst, rule):
    f = thiele_weights(rule, max(inst.k, 1))
    wi, cum = _scaled(inst, f)
    masks = [sum(1 << c for c in b) for b in inst.b]
    best, win = None, []
    for com in inst.committees():
        cm = sum(1 << c for c in com)
        s = 0
        for mk, w in zip(masks, wi):
            s += w * cum[(mk & cm).bit_count()]
        if best is None or s > best:
            best, win = s, [com]
        elif s == best:
            win.append(com)
    return win


def lexcc_winners(inst):
    best, win = None, []
    for com in inst.committees():
        cs = frozenset(com)
        vec = [Fraction(0)] * inst.k
        for b, w in zip(inst.b, inst.w):
            for i in range(len(b & cs)):
                vec[i] += w
        if best is None or vec > best:
            best, win = vec, [com]
        elif vec == best:
            win.append(com)
    return win


def separable_scores(inst, rule):
    s = [Fraction(0)] * inst.m
    for b, w in zip(inst.b, inst.w):
        for c in b:
            s[c] += w if rule == "av" else w / len(b)
    return s


def separable_winners(inst, rule):
    s = separable_scores(inst, rule)
    return [tuple(sorted(x)) for x in top_sets(inst.C, s, inst.k)]


def _remove_marginals(inst, com, f):
    com = frozenset(com)
    loss = {c: Fraction(0) for c in com}
    for b, w in zip(inst.b, inst.w):
        inter = b & com
        if inter:
            for c in inter:
                loss[c] += w * f[len(inter) - 1]
    return loss


def seq_thiele(inst, rule):
    """(set of all outcomes under any tie-breaking, outcome with ties broken by smallest index)."""
    f = thiele_weights(rule, inst.m)

    def gains(com):
        g = {c: Fraction(0) for c in inst.C if c not in com}
        for b, w in zip(inst.b, inst.w):
            s = len(b & com)
            for c in b - com:
                g[c] += w * f[s]
        return g

    com = frozenset()
    for _ in range(inst.k):
        g = gains(com)
        top = max(g.values())
        com = com | {min(c for c in g if g[c] == top)}
    first = tuple(sorted(com))
    layer = Counter({frozenset(): 1})
    for _ in range(inst.k):
        nxt = Counter()
        for com, num in layer.items():
            g = gains(com)
            top = max(g.values())
            for c in g:
                if g[c] == top:
                    nxt[com | {c}] += num
        layer = nxt
        _limit(layer, first)
    return {tuple(sorted(c)) for c in layer}, first


def revseq_thiele(inst, rule):
    f = thiele_weights(rule, inst.m)
    com = frozenset(inst.C)
    for _ in range(inst.m - inst.k):
        loss = _remove_marginals(inst, com, f)
        low = min(loss.values())
        com = com - {max(c for c in loss if loss[c] == low)}
    first = tuple(sorted(com))
    layer = Counter({frozenset(inst.C): 1})
    for _ in range(inst.m - inst.k):
        nxt = Counter()
        for com in layer:
            loss = _remove_marginals(inst, com, f)
            low = min(loss.values())
            for c in loss:
                if loss[c] == low:
                    nxt[com - {c}] = 1
        layer = nxt
        _limit(layer, first)
    return {tuple(sorted(c)) for c in layer}, first


# --- Hamming distance rules ---------------------------------------------------------------


def hamming(a, b):
    return len(frozenset(a) ^ frozenset(b))


def minimaxav_winners(inst):
    best, win = None, []
    for com in inst.committees():
        s = max(hamming(b, com) for b in inst.b)
        if best is None or s < best:
            best, win = s, [com]
        elif s == best:
            win.append(com)
    return win


def lexminimaxav_winners(inst):
    best, win = None, []
    for com in inst.committees():
        s = sorted((hamming(b, com) for b in inst.b), reverse=True)
        if best is None or s < best:
            best, win = s, [com]
        elif s == best:
            win.append(com)
    return win


# --- Monroe -------------------------------------------------------------------------------


def monroe_score(inst, com):
    """Best balanced assignment (district sizes differ by at most one), dynamic programming."""
    com = tuple(sorted(com))
    k = len(com)
    low, extra = divmod(inst.n, k)
    cap = low + (1 if extra else 0)
    states = {(0,) * k: 0}
    for b in inst.b:
        nxt = {}
        for counts, val in states.items():
            for j, c in enumerate(com):
                if counts[j] < cap:
                    cc = counts[:j] + (counts[j] + 1,) + counts[j + 1:]
                    v = val + (1 if c in b else 0)
                    if v > nxt.get(cc, -1):
                        nxt[cc] = v
        states = nxt
    return max(v for counts, v in states.items() if min(counts) >= low)


def max_flow(cap, source, sink):
    """Integer max-flow value by augmenting paths; cap: {(u, v): capacity}."""
    adj = {}
    res = {}
    for (u, v), x in cap.items():
        adj.setdefault(u, set()).add(v)
        adj.setdefault(v, set()).add(u)
        res[u, v] = res.get((u, v), 0) + x
        res.setdefault((v, u), 0)
    value = 0
    while True:
        parent = {source: None}
        queue = [source]
        for u in queue:
            for v in adj.get(u, ()):
                if v not in parent and res[u, v] > 0:
                    parent[v] = u
                    queue.append(v)
        if sink not in parent:
            return value
        path = []
        v = sink
        while parent[v] is not None:
            path.append((parent[v], v))
            v = parent[v]
        step = min(res[e] for e in path)
        for u, v in path:
            res[u, v] -= step
            res[v, u] += step
        value += step


def monroe_score_flow(inst, com):
    """The same as monroe_score for large profiles.

    Unrepresented voters fill up the districts, so only capacities matter: every district has
    low seats, and n - k * low districts have one more.
    """
    low, extra = divmod(inst.n, len(com))
    count = {}
    for b in inst.b:
        count[b & frozenset(com)] = count.get(b & frozenset(com), 0) + 1
    cap = {}
    for t, num in count.items():
        cap["s", ("type", t)] = num
        for c in t:
            cap[("type", t), ("cand", c)] = num
    for c in com:
        cap[("cand", c), "t"] = low
        cap[("cand", c), "extra"] = 1
    cap["extra", "t"] = extra
    return max_flow(cap, "s", "t")


def monroe_winners(inst):
    best, win = None, []
    for com in inst.committees():
        s = monroe_score(inst, com)
        if best is None or s > best:
            best, win = s, [com]
        elif s == best:
            win.append(com)
    return win


def greedy_monroe_outcomes(inst):
    """All committees that Greedy Monroe can return for some tie-breaking."""
    low, extra = divmod(inst.n, inst.k)
    seen = set()
    out = set()

    def rec(com, voters):
        key = (com, voters)
        if key in seen:
            return
        seen.add(key)
        t = len(com)
        if t == inst.k:
            out.add(tuple(sorted(com)))
            return
        size = low + (1 if t < extra else 0)
        cnt = {c: sum(1 for i in voters if c in inst.b[i]) for c in inst.C if c not in com}
        top = max(cnt.values())
        for c in cnt:
            if cnt[c] == top:
                sup = [i for i in sorted(voters) if c in inst.b[i]]
                for rem in combinations(sup, min(size, len(sup))):
                    rec(com | {c}, voters - set(rem))

    rec(frozenset(), frozenset(range(inst.n)))
    return out


def _removals(avail, num):
    """All ways to take num voters from groups of the given sizes."""
    if not avail:
        if num == 0:
            yield ()
        return
    rest = sum(avail[1:])
    for x in range(max(0, num - rest), min(avail[0], num) + 1):
        for tail in _removals(avail[1:], num - x):
            yield (x,) + tail


def greedy_monroe_types(inst):
    """The same as greedy_monroe_outcomes, with equal voters counted instead of listed."""
    types = sorted(set(inst.b), key=sorted)
    low, extra = divmod(inst.n, inst.k)
    layer = {(frozenset(), tuple(inst.b.count(t) for t in types)): 1}
    for t in range(inst.k):
        size = low + (1 if t < extra else 0)
        nxt = {}
        for com, left in layer:
            cnt = {c: sum(x for b, x in zip(types, left) if c in b)
                   for c in inst.C if c not in com}
            top = max(cnt.values())
            for c in cnt:
                if cnt[c] == top:
                    avail = [x if c in b else 0 for b, x in zip(types, left)]
                    for gone in _removals(avail, min(size, top)):
                        nxt[com | {c}, tuple(x - y for x, y in zip(left, gone))] = 1
            _limit(nxt)
        layer = nxt
    return {tuple(sorted(com)) for com, _ in layer}


# --- Phragmen -----------------------------------------------------------------------------


def seqphragmen(inst, start_load=None, committee=frozenset()):
    """(all outcomes under parallel-universe tie-breaking, outcome with smallest-index ties)."""
    start = tuple(start_load) if start_load is not None else (Fraction(0),) * inst.n
    supw = [sum((inst.w[i] for i in inst.sup[c]), Fraction(0)) for c in inst.C]

    def options(com, load):
        val = {}
        for c in inst.C:
            if c in com:
                continue
            if supw[c] == 0:
                val[c] = None  # infinite load
            else:
                val[c] = (1 + sum(inst.w[i] * load[i] for i in inst.sup[c])) / supw[c]
        finite = [v for v in val.values() if v is not None]
        if finite:
            low = min(finite)
            return low, [c for c in sorted(val) if val[c] == low]
        return None, sorted(val)

    def step(load, c, low):
        if low is None:
            return load
        return tuple(low if c in inst.b[i] else load[i] for i in range(inst.n))

    com, load = frozenset(committee), start
    while len(com) < inst.k:
        low, tied = options(com, load)
        load = step(load, tied[0], low)
        com = com | {tied[0]}
    first = tuple(sorted(com))
    layer = Counter({(frozenset(committee), start): 1})
    for _ in range(inst.k - len(committee)):
        nxt = Counter()
        for (com, load), num in layer.items():
            low, tied = options(com, load)
            for c in tied:
                nxt[com | {c}, step(load, c, low)] += num
        layer = nxt
        _limit(layer, first)
    return {tuple(sorted(c)) for c, _ in layer}, first


def _subset_ratios(inst, com):
    """For every non-empty S of the committee: (|S|, w(N(S)))."""
    com = tuple(com)
    masks = [sum(1 << i for i in inst.sup[c]) for c in com]
    for r in range(1, len(com) + 1):
        for idx in combinations(range(len(com)), r):
            nm = 0
            for j in idx:
                nm |= masks[j]
            yield r, sum((inst.w[i] for i in range(inst.n) if nm >> i & 1), Fraction(0)), nm, idx


def max_load(inst, com):
    """Minimal possible maximal load per unit of voter weight (None = infeasible); Hall / min-cut."""
    worst = Fraction(0)
    for size, weight, _, _ in _subset_ratios(inst, com):
        if weight == 0:
            return None
        worst = max(worst, Fraction(size) / weight)
    return worst


def leximax_loads(inst, com):
    """Leximax-optimal loads of voters (list of (load, weight)), by peeling densest subsets."""
    com = list(com)
    voters = set(range(inst.n))
    out = []
    while com:
        best, arg = None, None
        for r in range(1, len(com) + 1):
            for sub in combinations(com, r):
                nb = {i for c in sub for i in inst.sup[c]} & voters
                wt = sum((inst.w[i] for i in nb), Fraction(0))
                if wt == 0:
                    return None
                ratio = Fraction(r) / wt
                # maximal densest set: prefer larger
                if best is None or ratio > best or (ratio == best and r > len(arg[0])):
                    best, arg = ratio, (sub, nb)
        sub, nb = arg
        for i in nb:
            out.append((best, inst.w[i]))
        voters -= nb
        com = [c for c in com if c not in sub]
    for i in voters:
        out.append((Fraction(0), inst.w[i]))
    return out


def _leximax_key(loads):
    """Comparable key: loads sorted decreasingly, each with its total weight.

    Vectors are compared as the expansion into (infinitesimal) unit copies: the first position
    where they differ decides. Total weight is the same for all committees.
    """
    agg = {}
    for load, weight in loads:
        agg[load] = agg.get(load, Fraction(0)) + weight
    return sorted(agg.items(), reverse=True)


def _leximax_less(a, b):
    """-1 if a is better (lexicographically smaller), 0 if equal, 1 if worse."""
    a, b = list(map(list, a)), list(map(list, b))
    i = j = 0
    while i < len(a) and j < len(b):
        if a[i][0] != b[j][0]:
            return -1 if a[i][0] < b[j][0] else 1
        step = min(a[i][1], b[j][1])
        a[i][1] -= step
        b[j][1] -= step
        if a[i][1] == 0:
            i += 1
        if b[j][1] == 0:
            j += 1
    return 0


def _approved(inst):
    return [c for c in inst.C if inst.sup[c]]


def _too_few(inst):
    """Fewer approved candidates than seats: all of them, filled up arbitrarily."""
    app = _approved(inst)
    rest = [c for c in inst.C if not inst.sup[c]]
    return [tuple(sorted(app + list(fill))) for fill in combinations(rest, inst.k - len(app))]


def minimaxphragmen_winners(inst):
    if len(_approved(inst)) < inst.k:
        return _too_few(inst)
    best, win = None, []
    for com in combinations(_approved(inst), inst.k):
        s = max_load(inst, com)
        if best is None or s < best:
            best, win = s, [com]
        elif s == best:
            win.append(com)
    return win


def leximaxphragmen_winners(inst):
    if len(_approved(inst)) < inst.k:
        return _too_few(inst)
    best, win = None, []
    for com in combinations(_approved(inst), inst.k):
        key = _leximax_key(leximax_loads(inst, com))
        if best is None:
            best, win = key, [com]
            continue
        cmp = _leximax_less(key, best)
        if cmp < 0:
            best, win = key, [com]
        elif cmp == 0:
            win.append(com)
    return win


def min_support(inst, com):
    """Largest possible minimal support of a committee member (support spread by its voters)."""
    return min(weight / size for size, weight, _, _ in _subset_ratios(inst, com))


def maximin_support(inst):
    cache = {}

    def val(com):
        if com not in cache:
            cache[com] = min_support(inst, sorted(com))
        return cache[com]

    layer = {frozenset()}
    for _ in range(inst.k):
        nxt = set()
        for com in layer:
            opts = {c: val(com | {c}) for c in inst.C if c not in com}
            top = max(opts.values())
            nxt.update(com | {c} for c in opts if opts[c] == top)
        layer = nxt
    com = frozenset()
    for _ in range(inst.k):
        opts = {c: val(com | {c}) for c in inst.C if c not in com}
        top = max(opts.values())
        com = com | {min(c for c in opts if opts[c] == top)}
    return {tuple(sorted(c)) for c in layer}, tuple(sorted(com))


# --- Method of Equal Shares ---------------------------------------------------------------


def _mes_cost(inst, budget, c):
    """Smallest rho with sum_i min(b_i, rho w_i) >= 1 over supporters of c; None = unaffordable."""
    sup = sorted(inst.sup[c], key=lambda i: budget[i] / inst.w[i])
    if sum((budget[i] for i in sup), Fraction(0)) < 1:
        return None
    spent = Fraction(0)
    weight = sum((inst.w[i] for i in sup), Fraction(0))
    for i in sup:
        rho = (1 - spent) / weight
        if rho * inst.w[i] <= budget[i]:
            return rho
        spent += budget[i]
        weight -= inst.w[i]
    raise AssertionError("unreachable")


def mes_phase1(inst, budget):
    """All (committee, budgets) reachable until nothing is affordable or k seats are filled."""
    final = Counter()
    layer = Counter({(frozenset(), tuple(budget)): 1})
    while layer:
        nxt = Counter()
        for (com, bud), num in layer.items():
            tied, low = _mes_options(inst, com, bud) if len(com) < inst.k else ([], None)
            if not tied:
                final[com, bud] += num
            for c in tied:
                nxt[com | {c}, _mes_pay(inst, bud, c, low)] += num
        layer = nxt
        _limit(layer)
        _limit(final)
    return final


def _mes_options(inst, com, bud):
    cost = {}
    for c in inst.C:
        if c not in com:
            rho = _mes_cost(inst, bud, c)
            if rho is not None:
                cost[c] = rho
    if not cost:
        return [], None
    low = min(cost.values())
    return [c for c in sorted(cost) if cost[c] == low], low


def _mes_pay(inst, bud, c, rho):
    return tuple(
        bud[i] - min(bud[i], rho * inst.w[i]) if c in inst.b[i] else bud[i]
        for i in range(inst.n)
    )


def mes(inst, completion):
    """(all outcomes, {possible resolute outcomes when ties go to the smallest index})."""
    budget = [w * inst.k / inst.W for w in inst.w]

    def complete(com, bud):
        if len(com) == inst.k or completion is None:
            return {tuple(sorted(com))}, {tuple(sorted(com))}
        if completion == "seqphragmen":
            try:
                allc, one = seqphragmen(
                    inst, start_load=[-bud[i] / inst.w[i] for i in range(inst.n)], committee=com
                )
            except TooMany as exc:
                allc, one = None, exc.first
            return allc, {one}
        if completion == "av":
            s = separable_scores(inst, "av")
            rest = [c for c in inst.C if c not in com]
            win = {tuple(sorted(com | set(x))) for x in top_sets(rest, s, inst.k - len(com))}
            return win, win
        raise ValueError(completion)

    one = complete(*mes_phase1_first(inst, budget))[1]
    try:
        final = mes_phase1(inst, budget)
    except TooMany:
        raise TooMany(one) from None
    outcomes = set()
    for com, bud in final:
        allc = complete(com, bud)[0]
        if allc is None:
            raise TooMany(one)
        outcomes |= allc
    return outcomes, one


def top_sets(cands, score, size):
    """All subsets of the given size with maximum total score."""
    order = sorted(cands, key=lambda c: score[c], reverse=True)
    cut = score[order[size - 1]]
    sure = [c for c in order if score[c] > cut]
    tied = [c for c in order if score[c] == cut]
    if LIMIT is not None and binom(len(tied), size - len(sure)) > LIMIT:
        raise TooMany()
    return [tuple(sure) + x for x in combinations(tied, size - len(sure))]


def mes_increment(inst):
    """Possible outcomes (set) of Equal Shares with increment completion, smallest-index ties.

    The (virtual) committee size used for the budgets is raised by one until k candidates are
    affordable. With fewer approved candidates than k: all approved ones, filled up.
    """
    if len(_approved(inst)) < inst.k:
        return set(_too_few(inst)), None
    size = inst.k
    while True:
        budget = [w * Fraction(size) / inst.W for w in inst.w]
        com, _ = mes_phase1_first(inst, budget)
        if len(com) == inst.k:
            return {tuple(sorted(com))}, size
        size += 1


def mes_phase1_first(inst, budget):
    com, bud = frozenset(), tuple(budget)
    while len(com) < inst.k:
        tied, low = _mes_options(inst, com, bud)
        if not tied:
            break
        bud = _mes_pay(inst, bud, tied[0], low)
        com = com | {tied[0]}
    return com, bud


# --- other sequential rules ---------------------------------------------------------------


def _universe(inst, start, options, step):
    layer = Counter({(frozenset(), start): 1})
    for _ in range(inst.k):
        nxt = Counter()
        for (com, state), num in layer.items():
            for c in options(com, state):
                nxt[com | {c}, step(com, state, c)] += num
        layer = nxt
        _limit(layer)
    return {tuple(sorted(c)) for c, _ in layer}


def enestroem(inst):
    price = inst.W / inst.k

    def support(com, bud):
        return {
            c: sum((bud[i] for i in inst.sup[c]), Fraction(0)) for c in inst.C if c not in com
        }

    def options(com, bud):
        s = support(com, bud)
        top = max(s.values())
        return [c for c in s if s[c] == top]

    def step(com, bud, c):
        total = sum((bud[i] for i in inst.sup[c]), Fraction(0))
        mult = (total - price) / total if total > price else Fraction(0)
        return tuple(bud[i] * mult if c in inst.b[i] else bud[i] for i in range(inst.n))

    return _universe(inst, tuple(inst.w), options, step)


def consensus(inst):
    def add(bud):
        return tuple(bud[i] + inst.w[i] for i in range(inst.n))

    def options(com, bud):
        s = {}
        for c in inst.C:
            if c not in com:
                s[c] = sum((bud[i] for i in inst.sup[c] if bud[i] > 0), Fraction(0))
        top = max(s.values())
        return [c for c in s if s[c] == top]

    def step(com, bud, c):
        payers = [i for i in inst.sup[c] if bud[i] > 0]
        total = sum((inst.w[i] for i in payers), Fraction(0))
        new = list(bud)
        for i in payers:
            new[i] -= inst.w[i] * inst.W / total
        return add(tuple(new))

    return _universe(inst, add((Fraction(0),) * inst.n), options, step)


def eph(inst):
    """E Pluribus Hugo: among the (up to ties) two lowest SDV scores, drop the least approved."""
    rem = set(inst.C)
    while True:
        sdv = {c: Fraction(0) for c in rem}
        av = {c: Fraction(0) for c in rem}
        for b, w in zip(inst.b, inst.w):
            live = b & rem
            for c in live:
                sdv[c] += w / len(live)
                av[c] += w
        order = sorted(sdv.values())
        cut = order[1] if len(order) > 1 else order[0]
        low = [c for c in rem if sdv[c] <= cut]
        least = min(av[c] for c in low)
        drop = [c for c in low if av[c] == least]
        if len(rem) - len(drop) <= inst.k:
            need = len(rem) - inst.k
            if LIMIT is not None and binom(len(drop), need) > LIMIT:
                raise TooMany()
            return {tuple(sorted(rem - set(s))) for s in combinations(drop, need)}
        rem -= set(drop)


def rsd_distribution(inst):
    """Outcome -> probability, with all orders of voters (and all fillings) equally likely."""
    out = {}
    orders = list(permutations(range(inst.n)))
    for perm in orders:
        com = set()
        for i in perm:
            for c in sorted(inst.b[i]):
                if len(com) < inst.k:
                    com.add(c)
        rest = [c for c in inst.C if c not in com]
        fillings = list(combinations(rest, inst.k - len(com)))
        for fill in fillings:
            res = tuple(sorted(com | set(fill)))
            out[res] = out.get(res, 0) + Fraction(1, len(orders) * len(fillings))
    return out


def rsd_outcomes(inst):
    """All outcomes of random serial dictatorship (voters in random order)."""
    out = set()
    for perm in set(permutations(range(inst.n))):
        com = set()
        for i in perm:
            for c in sorted(inst.b[i]):
                if len(com) < inst.k:
                    com.add(c)
        if len(com) == inst.k:
            out.add(tuple(sorted(com)))
        else:
            rest = [c for c in inst.C if c not in com]
            for fill in combinations(rest, inst.k - len(com)):
                out.add(tuple(sorted(com | set(fill))))
    return out
