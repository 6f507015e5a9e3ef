"""The property-based testing harness shared by every check.

A property is decided by one or more facets. A facet is a hypothesis strategy
producing a plain, JSON-able case plus an oracle `check(case, ctx)`. A failing
case is shrunk by hypothesis and written out as the replay file.
"""
from __future__ import annotations

import hashlib
import json
import os
import signal
import sys
import time
import traceback
import zlib
from collections import Counter
from typing import Any, Callable

from .boot import boot

boot()

import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, given, settings  # noqa: E402
from hypothesis.errors import Flaky, UnsatisfiedAssumption  # noqa: E402

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
CASE_TIMEOUT_S = 60


class Violation(AssertionError):
    """The property does not hold on this case."""


class HarnessError(Exception):
    """The check itself went wrong; not an answer about the property."""


class Ctx:
    """What one evaluation of a case reports back."""

    def __init__(self):
        self.labels: list[str] = []
        self.nontrivial = False

    def label(self, *names: str):
        self.labels.extend(names)

    def interesting(self, cond: Any = True):
        if cond:
            self.nontrivial = True

    def fail(self, msg: str):
        raise Violation(msg)

    def require(self, cond: Any, msg: str | Callable[[], str]):
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def equal(self, got: Any, want: Any, what: str):
        if got != want:
            raise Violation(f"{what}: got {short(got)}, want {short(want)}")

    def known(self, finding: str):
        """The finding of known_findings.json with this id was seen. One that is
        not listed is a violation like any other."""
        what = FINDINGS.get(finding)
        if what is None:
            raise Violation(f"finding {finding!r} was seen, but is not listed")
        KNOWN_SEEN.add(what)


def _findings() -> dict[str, str]:
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
    with open(path) as fh:
        return {k["id"]: k["what"] for k in json.load(fh)["known"]}


FINDINGS = _findings()


KNOWN_SEEN: set[str] = set()


def short(x: Any, n: int = 1500) -> str:
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + "…"


class Facet:
    def __init__(
        self,
        name: str,
        strategy: Any,
        check: Callable[[Any, Ctx], None],
        *,
        rule: str,
        quick: int = 300,
        thorough: int = 6000,
        examples: list | None = None,
        enumerate_all: Callable[[], list] | None = None,
    ):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.rule = rule
        self.quick = quick
        self.thorough = thorough
        self.examples = examples or []
        # A finite list of cases that is always run completely.
        self.enumerate_all = enumerate_all


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial: set[str] = set()
        self.distinct: set[str] = set()
        self.labels: Counter = Counter()
        self.samples: list = []
        self._sample_sizes: list = []

    def add(self, facet: str, case: Any, ctx: Ctx):
        self.evaluations += 1
        for lb in set(ctx.labels):
            self.labels[lb] += 1
        key = facet + ":" + case_key(case)
        self.distinct.add(key)
        if ctx.nontrivial and key not in self.nontrivial:
            self.nontrivial.add(key)
            n = len(self.nontrivial)
            # keep the first and then exponentially spaced ones
            if n in (1, 10, 40, 160, 640, 2560):
                self.samples.append({"facet": facet, "case": trim(case)})


def trim(case: Any):
    s = json.dumps(case, default=repr, sort_keys=True)
    return case if len(s) < 4000 else s[:4000] + "…"


def case_key(case: Any) -> str:
    return hashlib.blake2b(
        json.dumps(case, default=repr, sort_keys=True).encode(), digest_size=12
    ).hexdigest()


def in_repo(tb) -> bool:
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(REPO + os.sep + "recap" + os.sep):
            return True
        tb = tb.tb_next
    return False


class _Timeout(BaseException):
    pass


def _on_alarm(signum, frame):
    raise _Timeout()


def evaluate(facet: Facet, case: Any, stats: Stats | None) -> Violation | None:
    """Run the oracle on one case; a Violation is returned, not raised."""
    ctx = Ctx()
    old = signal.signal(signal.SIGALRM, _on_alarm)
    # again each second: the first may be raised where exceptions are ignored
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT_S, 1)
    try:
        facet.check(case, ctx)
    except Violation as v:
        return v
    except UnsatisfiedAssumption:
        raise
    except _Timeout:
        return Violation(f"no answer within {CASE_TIMEOUT_S} s")
    except Exception as e:
        if in_repo(e.__traceback__):
            tb = traceback.format_exc(limit=-6)
            return Violation(f"unexpected {type(e).__name__}: {e}\n{tb}")
        if isinstance(e, (TypeError, LookupError, AttributeError, ValueError, AssertionError, ArithmeticError)):
            # The oracle cannot make sense of what it was given: an answer of
            # another kind than any the property allows (bytes for text, a
            # missing attribute, two values instead of one). This never happens
            # where the property holds; failures of the machinery itself
            # (files, processes, imports, memory) are errors.
            tb = traceback.format_exc(limit=-4)
            return Violation(f"an answer that cannot be understood: {type(e).__name__}: {e}\n{tb}")
        raise HarnessError(
            f"facet {facet.name}: {type(e).__name__}: {e}\n"
            f"{traceback.format_exc()}\ncase: {short(case)}"
        ) from e
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        if stats is not None:
            stats.add(facet.name, case, ctx)
    return None


class Failure:
    def __init__(self, facet: str, case: Any, message: str):
        self.facet = facet
        self.case = case
        self.message = message


def run_facet(facet: Facet, n: int, seed: int, stats: Stats, shard: int, shards: int) -> Failure | None:
    # Regression cases and finite enumerations are dealt out to the workers.
    fixed = list(facet.examples)
    if facet.enumerate_all is not None:
        fixed += list(facet.enumerate_all())
    for case in fixed[shard::shards]:
        v = evaluate(facet, case, stats)
        if v is not None:
            return Failure(facet.name, case, str(v))
    if facet.strategy is None or n <= 0:
        return None

    last: list[Failure] = []

    @hypothesis.seed(seed)
    @settings(
        max_examples=n,
        database=None,
        deadline=None,
        derandomize=False,
        report_multiple_bugs=False,
        print_blob=False,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.shrink),
        verbosity=hypothesis.Verbosity.quiet,
    )
    @given(facet.strategy() if callable(facet.strategy) else facet.strategy)
    def prop(case):
        v = evaluate(facet, case, stats)
        if v is not None:
            last.append(Failure(facet.name, case, str(v)))
            raise v

    start = time.time()
    try:
        prop()
    except Violation:
        return last[-1]
    except (Flaky, ExceptionGroup):
        if last:
            best = min(last, key=lambda f: len(json.dumps(f.case, default=repr)))
            best.message += "\n(seen, but not on every repetition)"
            return best
        raise
    except HarnessError:
        if last:
            return last[-1]
        raise
    finally:
        stats.labels[f"seconds:{facet.name}"] += int(time.time() - start)
    return None


def facet_seed(seed: int, facet: str, shard: int) -> int:
    return (seed * 1_000_003 + zlib.crc32(facet.encode()) * 31 + shard * 7919) & 0xFFFFFFFFFFFF


def call(fn, *args, **kw):
    """(value, None) or (None, exception) of a call into the code under test."""
    try:
        return fn(*args, **kw), None
    except _Timeout:
        raise
    except Exception as e:
        return None, e


class Property:
    def __init__(self, pid: str, facets: list[Facet], *, level="exploration", assumptions=()):
        self.pid = pid
        self.facets = facets
        self.level = level
        self.assumptions = list(assumptions)
