"""rule id -> exact reference outcome (all winners, admissible resolute outcomes)."""

from pbt import ref
from pbt.ref import Inst

EXACT_THIELE = ("pav", "slav", "cc")


def expected(rule_id, case):
    """(set of winning committees, set of committees allowed with resolute=True)."""
    inst = Inst(case)
    if rule_id in EXACT_THIELE or rule_id.startswith("geom"):
        win = set(ref.thiele_winners(inst, rule_id))
    elif rule_id in ("av", "sav"):
        win = set(ref.separable_winners(inst, rule_id))
    elif rule_id == "lexcc":
        win = set(ref.lexcc_winners(inst))
    elif rule_id == "minimaxav":
        win = set(ref.minimaxav_winners(inst))
    elif rule_id == "lexminimaxav":
        win = set(ref.lexminimaxav_winners(inst))
    elif rule_id == "monroe":
        win = set(ref.monroe_winners(inst))
    elif rule_id == "greedy-monroe":
        win = ref.greedy_monroe_outcomes(inst)
    elif rule_id == "minimaxphragmen":
        win = set(ref.minimaxphragmen_winners(inst))
    elif rule_id == "leximaxphragmen":
        win = set(ref.leximaxphragmen_winners(inst))
    elif rule_id.startswith("revseq"):
        win, one = ref.revseq_thiele(inst, rule_id[6:])
        return win, {one}
    elif rule_id == "seqphragmen":
        win, one = ref.seqphragmen(inst)
        return win, {one}
    elif rule_id.startswith("seq"):
        win, one = ref.seq_thiele(inst, rule_id[3:])
        return win, {one}
    elif rule_id == "maximin-support":
        win, one = ref.maximin_support(inst)
        return win, {one}
    elif rule_id == "equal-shares":
        return ref.mes(inst, "seqphragmen")
    elif rule_id == "equal-shares-with-av-completion":
        return ref.mes(inst, "av")
    elif rule_id == "equal-shares-without-completion":
        return ref.mes(inst, None)
    elif rule_id == "equal-shares-with-increment-completion":
        win, _ = ref.mes_increment(inst)
    elif rule_id == "phragmen-enestroem":
        win = ref.enestroem(inst)
    elif rule_id == "consensus-rule":
        win = ref.consensus(inst)
    elif rule_id == "eph":
        win = ref.eph(inst)
    elif rule_id == "rsd":
        win = ref.rsd_outcomes(inst)
    elif rule_id == "trivial":
        win = set(inst.committees())
    else:
        raise ValueError(rule_id)
    return win, win
