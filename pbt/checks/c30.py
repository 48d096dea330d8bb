"""C30: output appears exactly when the verbosity says so."""

import contextlib
import ctypes
import io
import logging
import os
import re
import sys
import tempfile

from hypothesis import strategies as st

from pbt import axcheck, axioms, gen, rules
from pbt.core import Facet, require, sut
from pbt.exact import SOLVER, modes_for, pairs
from pbt.gen import build

RULE = ("Generated histories of verbosity changes, logger changes and messages of all levels "
        "against a model of the output; rules and property checks run with captured file "
        "descriptors at the default verbosity.")
TECHNIQUE = "property-based testing (Hypothesis): stateful model-based testing; invariant (silence)"
ASSUMPTIONS = ["wrapped text is compared ignoring whitespace within each line of the message",
               "messages contain no tabs or other unusual whitespace",
               "licence messages of Gurobi are not counted as output"]

LEVELS = {"critical": 50, "error": 40, "warning": 30, "info": 20, "details": 15, "debug": 10,
          "debug2": 5}
WIDTH = 70


def words():
    return st.one_of(
        st.text(alphabet="abcXY01-_.,(){}é", min_size=1, max_size=12),
        st.text(alphabet="abc", min_size=60, max_size=90),
    )


@st.composite
def messages(draw):
    lines = draw(st.lists(
        st.builds(lambda pre, ws, post: " " * pre + " ".join(ws) + " " * post,
                  st.sampled_from([0, 0, 0, 1, 3]),
                  st.lists(words(), max_size=14), st.sampled_from([0, 0, 0, 2])),
        min_size=1, max_size=4))
    return "\n".join(lines)


@st.composite
def histories(draw):
    ops = []
    for _ in range(draw(st.integers(1, 12))):
        kind = draw(st.sampled_from(["verb", "msg", "msg", "msg", "logger"]))
        if kind == "verb":
            ops.append([kind, draw(st.sampled_from([None] + sorted(LEVELS)))])
        elif kind == "logger":
            ops.append([kind, draw(st.sampled_from([None, 1, 5, 10, 15, 20, 30, 40, 50]))])
        else:
            ops.append([kind, draw(st.sampled_from(sorted(LEVELS))), draw(messages()),
                        draw(st.sampled_from([None, True, False])),
                        draw(st.sampled_from(["", "", " ", "    ", "> "]))])
    return {"global": draw(st.booleans()), "ops": ops}


def squash(text):
    return "".join(text.split())


def match_lines(msg, printed, indent):
    """Every line of msg, whitespace aside, is printed on lines of its own, indented."""
    require(printed.endswith("\n"), "no line break after the message")
    out = printed[:-1].split("\n")
    pos = 0
    for line in msg.split("\n"):
        want, got, first = squash(line), "", True
        while first or (len(got) < len(want) and pos < len(out)):
            require(pos < len(out), lambda: f"message {msg!r} is not printed completely: {out}")
            row = out[pos]
            pos += 1
            if row.strip():
                require(row.startswith(indent), lambda: f"line {row!r} lacks indent {indent!r}")
                body = row[len(indent):]
                require(len(row) <= WIDTH or " " not in body.strip(),
                        lambda: f"line longer than {WIDTH} characters: {row!r}")
                got += squash(body)
            else:
                require(want == "", lambda: f"unexpected blank line for {line!r}: {out}")
            if first and line.strip() and len(indent) + len(line.rstrip()) <= WIDTH:
                require(row == indent + line.rstrip(),
                        lambda: f"short line {line!r} printed as {row!r}")
            first = False
        require(got == want, lambda: f"line {line!r} of the message printed as {got!r}")
    require(pos == len(out), lambda: f"additional lines printed: {out[pos:]}")


class Collect(logging.Handler):
    def __init__(self):
        super().__init__(level=0)
        self.records = []

    def emit(self, record):
        self.records.append((record.levelno, record.getMessage()))


def check_history(case, ctx):
    from abcvoting import output as module

    out = module.output if case["global"] else module.Output()
    sink = Collect()
    verbosity = LEVELS["warning"]  # documented default
    log_level = None
    shown = hidden = logged = 0
    out.set_verbosity()
    if not case["global"]:
        require(out.verbosity == verbosity, lambda: f"default verbosity is {out.verbosity}")
    try:
        for op in case["ops"]:
            if op[0] == "verb":
                if op[1] is None:
                    out.set_verbosity()
                    verbosity = LEVELS["warning"]
                else:
                    verbosity = LEVELS[op[1]]
                    out.set_verbosity(getattr(module, op[1].upper()))
                continue
            if op[0] == "logger":
                log_level = op[1]
                out.logger = None
                if log_level is not None:
                    out.logger = logging.Logger("c30", log_level)
                    out.logger.addHandler(sink)
                continue
            _, name, msg, wrap, indent = op
            kwargs = {} if wrap is None else {"wrap": wrap}
            if indent:
                kwargs["indent"] = indent
            stdout = io.StringIO()
            sink.records.clear()
            with contextlib.redirect_stdout(stdout):
                sut(f"output.{name}", getattr(out, name), msg, **kwargs)
            text = stdout.getvalue()
            what = f"{name} message at verbosity {verbosity}"
            if LEVELS[name] < verbosity:
                hidden += 1
                require(text == "", lambda: f"{what} is printed: {text!r}")
            elif wrap is False:
                shown += 1
                require(text == msg + "\n", lambda: f"{what}: printed {text!r} instead of {msg!r}")
            else:
                shown += 1
                match_lines(msg, text, indent)
            level = LEVELS[name]
            if name in ("details", "debug2"):
                level = LEVELS["debug"]
            if log_level is not None and level >= log_level:
                logged += 1
                require(len(sink.records) == 1 and sink.records[0][0] == level,
                        lambda: f"{what}: log records {sink.records} (logger level {log_level})")
                rec = sink.records[0][1]
                if indent.strip():
                    require(squash(msg.replace(">", "")) == squash(rec.replace(">", "")),
                            lambda: f"{what}: logged {rec!r} instead of {msg!r}")
                else:
                    require(squash(msg) == squash(rec),
                            lambda: f"{what}: logged {rec!r} instead of {msg!r}")
            else:
                require(not sink.records, lambda: f"{what}: unexpected log records "
                                                  f"{sink.records} (logger level {log_level})")
    finally:
        out.set_verbosity()
        out.logger = None
    if shown and hidden:
        ctx.label("printed and suppressed messages")
    if logged:
        ctx.label("logged messages")
    ctx.nontrivial(shown and hidden)


# --- silence at the default verbosity ------------------------------------------------------


def _gurobi_output(value):
    """Gurobi's own switch: models are silent only if they say so (as in a user's session)."""
    try:
        import gurobipy

        gurobipy.setParam("OutputFlag", value)
    except Exception:  # solver not usable: the checks will see that themselves
        pass


@contextlib.contextmanager
def captured_fds(result):
    """Everything written to file descriptors 1 and 2 (also by solver libraries)."""
    libc = ctypes.CDLL(None)
    sys.stdout.flush()
    sys.stderr.flush()
    libc.fflush(None)
    with tempfile.TemporaryFile() as tmp:
        saved = os.dup(1), os.dup(2)
        try:
            os.dup2(tmp.fileno(), 1)
            os.dup2(tmp.fileno(), 2)
            with contextlib.redirect_stdout(io.TextIOWrapper(os.fdopen(os.dup(1), "wb"),
                                                             write_through=True)):
                _gurobi_output(1)
                yield
        finally:
            _gurobi_output(0)
            libc.fflush(None)
            os.dup2(saved[0], 1)
            os.dup2(saved[1], 2)
            os.close(saved[0])
            os.close(saved[1])
        tmp.seek(0)
        text = tmp.read().decode("utf-8", "replace")
    result.append("\n".join(
        line for line in text.split("\n")
        if line.strip() and not re.search(r"[Ll]icense|^Set parameter OutputFlag", line)))


@st.composite
def silent_cases(draw, solver):
    rule_id, algo = draw(st.sampled_from(pairs(rules.all_rule_ids(), solver)))
    if rule_id == "leximaxphragmen":
        case = draw(gen.lightweight(max_m=4))
    else:
        case = draw(gen.instances(max_m=5, max_n=6, max_k=4, modes=modes_for(rule_id, algo),
                                  wide=True, wide_max_k=2 if algo in SOLVER else 3))
    return dict(case, rule=rule_id, algo=algo, resolute=draw(
        st.sampled_from(rules.rule(rule_id).resolute_values)),
        name=draw(st.sampled_from([None, None] + sorted(LEVELS))))


def check_silent(case, ctx):
    from abcvoting.output import WARNING, output

    level = WARNING
    if case["name"] is None:
        output.set_verbosity()
    else:
        level = LEVELS[case["name"]]
        output.set_verbosity(level)
    try:
        profile = build(case)
        got = []
        with captured_fds(got):
            coms = rules.compute(case["rule"], profile, case["k"], algorithm=case["algo"],
                                 resolute=case["resolute"])
        what = f"{case['rule']}/{case['algo']} at verbosity {level}"
        if case["algo"] == "mip-cbc":
            # CbcSymmetry::Print_Orbits calls printf whatever the log level: not abcvoting's output
            got[0] = re.sub(r"^Orbit \d+:[ \d]*\n?", "", got[0], flags=re.MULTILINE)
        if level >= WARNING:
            require(got[0] == "", lambda: f"{what} prints {got[0][:500]!r}")
        else:
            require(got[0] != "", lambda: f"{what} prints nothing")
        require(output.verbosity == level, lambda: f"{what}: verbosity becomes {output.verbosity}")
        require(coms is not None, "no result")
    finally:
        output.set_verbosity()
    ctx.label(f"{case['rule']}/{case['algo']}")
    ctx.label("silent level" if level >= WARNING else "verbose level")
    ctx.nontrivial(level >= WARNING and len(coms) < rules.binom(case["m"], case["k"]))


@st.composite
def silent_axioms(draw):
    case = draw(axcheck.cases((5, 5), sorted(axioms.REFERENCE)))
    algos = axioms.ALGORITHMS[case["prop"]]
    return dict(case, algo=draw(st.sampled_from([None, *algos])),
                full=draw(st.integers(0, 5)) == 0, bad=draw(st.integers(0, 9)) == 0,
                name=draw(st.sampled_from([None, None, None] + sorted(LEVELS))))


def check_silent_axioms(case, ctx):
    from abcvoting import properties
    from abcvoting.output import WARNING, output

    level = WARNING
    if case["name"] is None:
        output.set_verbosity()
    else:
        level = LEVELS[case["name"]]
        output.set_verbosity(level)
    com = case["com"] + [case["m"] + 3] if case["bad"] else case["com"]
    try:
        profile = axcheck.make(case)
        got = []
        with captured_fds(got):
            try:
                if case["full"]:
                    what = "full_analysis"
                    properties.full_analysis(profile, com)
                else:
                    what = f"check {case['prop']}"
                    kw = {} if case["quota"] is None else {"quota": gen.to_weight(case["quota"])}
                    if case.get("algo"):
                        kw["algorithm"] = case["algo"]
                        what += f" ({case['algo']})"
                    properties.check(case["prop"], profile, com, **kw)
            except ValueError:
                if not case["bad"]:
                    raise
        if level >= WARNING:
            require(got[0] == "", lambda: f"{what} prints {got[0][:500]!r} at verbosity {level}")
        elif not case["bad"]:
            require(got[0] != "", lambda: f"{what} prints nothing at verbosity {level}")
        require(output.verbosity == level,
                lambda: f"{what} changes the verbosity from {level} to {output.verbosity}")
    finally:
        output.set_verbosity()
    ctx.label(what)
    ctx.label("invalid committee" if case["bad"] else "valid committee")
    ctx.nontrivial(level >= WARNING and not case["bad"])


FACETS = [
    Facet("histories", histories(), check_history, 8000, 150000,
          "up to 12 operations on the global or a fresh Output object; non-trivial: some message "
          "is printed and some message is suppressed"),
    Facet("silent-rules", silent_cases(False), check_silent, 2500, 40000,
          "rules with combinatorial algorithms: nothing printed at WARNING or above, something at "
          "INFO or below; verbosity unchanged; non-trivial: level >= WARNING and not every "
          "committee wins"),
    Facet("silent-solvers", silent_cases(True), check_silent, 700, 10000,
          "the same for ILP/CP algorithms (includes output of the solver libraries)"),
    Facet("silent-checks", silent_axioms(), check_silent_axioms, 2000, 30000,
          "the same for property checks and full_analysis, also with invalid committees; "
          "non-trivial: level >= WARNING and valid committee"),
]
