"""Shared vocabulary of the checks: Violation, Facet, Ctx, sut()."""

import hashlib
import json
import traceback


class Violation(AssertionError):
    """The property is broken by the code under test on this case."""


class CaseTimeout(BaseException):
    """A case burnt far more CPU time than any such case legitimately needs."""


class HarnessError(Exception):
    """Something is wrong with the harness itself (never a violation)."""


class Facet:
    """One generated-input check.

    name      short identifier
    strategy  Hypothesis strategy producing a JSON-serialisable case
    check     function (case, ctx); raises Violation if the property is broken
    quick / thorough   number of generated cases
    rule      what the cases are and what makes one non-trivial
    corpus    explicit cases that are always run first
    minimise  reduce failing profiles (keys m, b, w, k) by delta debugging after Hypothesis
    """

    def __init__(self, name, strategy, check, quick, thorough, rule, corpus=(), min_shard=40,
                 minimise=False):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.corpus = list(corpus)
        self.min_shard = min_shard
        self.minimise = minimise


class Ctx:
    """Collects what a single case turned out to be."""

    def __init__(self):
        self.labels = []
        self.is_nontrivial = False
        self.known_hits = []

    def label(self, text):
        self.labels.append(text)

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def case_hash(case):
    return hashlib.sha256(canon(case).encode()).digest()[:8]


def describe_exc(exc):
    frames = traceback.extract_tb(exc.__traceback__)
    where = [f for f in frames if "abcvoting" in f.filename]
    loc = ""
    if where:
        loc = f" at {where[-1].filename.rsplit('/', 1)[-1]}:{where[-1].name}"
    return f"{type(exc).__name__}: {exc}{loc}"


def sut(what, fct, *args, allow=(), **kwargs):
    """Run code under test; an exception that the contract does not allow is a violation."""
    try:
        return fct(*args, **kwargs)
    except allow:
        raise
    except (Violation, HarnessError):
        raise
    except Exception as exc:
        raise Violation(f"{what}: unexpected {describe_exc(exc)}") from exc


def expect_raises(what, types, fct, *args, **kwargs):
    """The call must raise one of `types`; returns the exception."""
    try:
        res = fct(*args, **kwargs)
    except types as exc:
        return exc
    except (Violation, HarnessError):
        raise
    except Exception as exc:
        raise Violation(
            f"{what}: expected {types}, but got {describe_exc(exc)}"
        ) from exc
    raise Violation(f"{what}: expected an exception {types}, but the call returned {res!r}")


def require(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)
