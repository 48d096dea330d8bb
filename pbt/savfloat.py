"""Known finding: SAV adds up floats, so that ties between sums of fractions may be missed.

abcrules._separable_rule_algorithm computes `voter.weight / len(voter.approved)` with floats.
A test of the repository (instanceS0003 / sav) pins one of the resulting missed ties, therefore
it is recorded instead of repaired. Only deviations that rounding at this call site can explain are
treated as the known finding:

* candidates whose exact scores tie at the cutoff may be told apart, but
* only if these scores contain terms that are not exactly representable as floats and the sequences
  of terms differ, and
* apart from that, the outcome has to be what a perturbation of the tied scores gives.
"""

from fractions import Fraction

from pbt import gen
from pbt.ref import Inst, separable_scores


MISSED_TIE = {"m": 4, "b": [[0], [0], [0, 2, 3], [1], [1, 2, 3], [1]], "w": ["1"] * 6, "k": 1,
              "algo": "standard", "rule": "sav"}


def _cutoff(case):
    inst = Inst(case)
    scores = separable_scores(inst, "sav")
    cutoff = sorted(scores, reverse=True)[case["k"] - 1]
    certain = {c for c in inst.C if scores[c] > cutoff}
    tied = {c for c in inst.C if scores[c] == cutoff}
    return certain, tied


def _terms(case, cand):
    """Terms of a score; integer weights are divided with floats, Fraction weights exactly."""
    return [(w / len(b), w.denominator == 1)
            for b, w in zip(case["b"], gen.fracs(case)) if cand in b]


def _dyadic(x):
    return x.denominator & (x.denominator - 1) == 0


def inexact_tie(case):
    """Is there a tie at the cutoff that float sums may miss?"""
    certain, tied = _cutoff(case)
    if len(tied) + len(certain) == case["k"]:
        return False
    seqs = [_terms(case, c) for c in tied]
    if all(_dyadic(t) for s in seqs for t, _ in s):
        return False
    return any(s != seqs[0] for s in seqs)


def explained(case, got):
    """Can missed ties explain the winning committees `got` (of a case with an inexact tie)?"""
    if not inexact_tie(case) or not got:
        return False
    certain, tied = _cutoff(case)
    common = set.intersection(*map(set, got))
    union = set.union(*map(set, got))
    if not (certain <= common and union <= certain | tied):
        return False
    from itertools import combinations

    undecided = union - common
    need = case["k"] - len(common)
    return set(got) == {
        tuple(sorted(common | set(fill))) for fill in combinations(sorted(undecided), need)
    }


def compare(rule_id, what, got, want, case, ctx):
    """Metamorphic comparison; for SAV, ties that float sums may miss are the known finding.

    `case` is an instance whose exact winners are `want` up to missed ties, `got` has been
    renamed accordingly.
    """
    from pbt import rules

    if rule_id == "sav" and got != want and got and want:
        certain, tied = _cutoff(case)
        exact = {c for c in rules.combos(case) if certain <= set(c) <= certain | tied}
        if len(exact) > 1 and got <= exact and want <= exact and not all(
            _dyadic(1 / Fraction(len(b))) for b in case["b"] if b
        ):
            ctx.known_hits.append("sav-float")
            ctx.label("known finding: tie missed by float sums (sav)")
            return
    rules.compare(what, got, want)
