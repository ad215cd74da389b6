"""Check API: Sub-checks, violations, evidence counters."""
from __future__ import annotations

import contextlib
import json


class Violation(Exception):
    """The property does not hold for the current case."""


HARNESS = []   # exceptions raised by simulators; the library may have swallowed them


@contextlib.contextmanager
def simulator(*allowed):
    """Wraps simulator code: unplanned exceptions in it are the harness's fault."""
    try:
        yield
    except allowed:
        raise
    except Exception as ex:  # noqa: BLE001
        HARNESS.append(ex)
        raise


class Ctx:
    """Per-run recorder handed to check functions."""

    def __init__(self):
        self.labels = {}
        self.nontrivial_case = False
        self.case_labels = set()
        self.extra_evals = 0

    def start(self):
        self.nontrivial_case = False
        self.case_labels = set()

    def label(self, *names):
        for n in names:
            self.case_labels.add(str(n))

    def nontrivial(self, cond=True):
        if cond:
            self.nontrivial_case = True

    def evals(self, n):
        """n further evaluations were done inside this case."""
        self.extra_evals += n


class Sub:
    """One executable check of a property.

    strategy: zero-argument callable giving a hypothesis strategy whose values are literals
    check:    callable(case, ctx) raising Violation
    quick/thorough: number of examples (per run, over all shards)
    cases:    optional callable giving an explicit list of cases (enumerated instead of sampled)
    """

    def __init__(self, name, strategy=None, check=None, quick=100, thorough=None, shards=1,
                 rule="", cases=None, tshards=None, case_timeout=120):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.shards = shards
        self.tshards = tshards
        self.rule = rule
        self.cases = cases
        self.case_timeout = case_timeout


def fail(msg):
    raise Violation(msg)


def require(cond, msg, *detail):
    if not cond:
        raise Violation(msg + (": " + "; ".join(short(d) for d in detail) if detail else ""))


def short(x, n=600):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[: n // 2] + " ... " + s[-n // 2:]


def eq(actual, expected, what):
    if type(actual) is bool or type(expected) is bool:
        ok = type(actual) is type(expected) and actual == expected
    else:
        try:
            ok = bool(actual == expected)
        except Exception as ex:  # noqa: BLE001
            raise Violation(f"{what}: cannot compare {short(actual)} with {short(expected)}: {ex!r}") from ex
    if not ok:
        raise Violation(f"{what}: got {short(actual)}, expected {short(expected)}")


@contextlib.contextmanager
def judging(what):
    """Anything that goes wrong while inspecting what the library returned is a violation."""
    try:
        yield
    except Violation:
        raise
    except Exception as ex:  # noqa: BLE001
        raise Violation(f"{what}: {type(ex).__name__}: {ex}") from ex


def jdump(x):
    return json.dumps(x, sort_keys=True, default=repr)
