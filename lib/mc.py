"""Core of the explorer: exhaustive enumeration of cases / histories with counting.

A check module (checks/<id>.py) defines FAMILIES, a list of Family objects. A family is a
finite, ordered, deterministic enumeration of JSON-able cases (`cases(tier)`) together with
`run(case, ctx)`, which executes the case on the real klang code, compares every step with a
reference model, and raises Violation on the first disagreement. The runner shards the cases
over worker processes; nothing is sampled.
"""
import itertools
import math


class Violation(Exception):
    """The real code broke the property on a concrete case."""

    def __init__(self, msg, case=None):
        super().__init__(msg)
        self.msg = msg
        self.case = case


class Family:
    """One exhaustively enumerated space of behaviours."""

    def __init__(self, name, cases, run, bound, timeout=180.):
        self.name = name
        self.cases = cases
        self.run = run
        self.bound = bound      # callable(tier) -> text or text
        self.timeout = timeout

    def bound_text(self, tier):
        return self.bound(tier) if callable(self.bound) else self.bound


class Ctx:
    """Counters of one family in one worker."""

    def __init__(self, tier='quick', seed=1):
        self.tier = tier
        self.seed = seed
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.capped = False

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def state(self, *key):
        """Record a visited (canonical) state of the reference model."""
        self.states.add(hash(key))

    def step(self, n=1):
        """Record executed transitions."""
        self.transitions += n

    def trace(self, n=1):
        """Record complete histories whose model run was compared with the real code."""
        self.traces += n

    def outcome(self, *key):
        """Record a distinct observed outcome (to show that the space is not vacuous)."""
        self.outcomes.add(hash(key))


def require(cond, fmt, *args):
    """Raise Violation if cond does not hold."""
    if not cond:
        raise Violation(fmt % args if args else fmt)


def sequences(alphabet, length):
    """All sequences over alphabet with exactly this length."""
    return itertools.product(alphabet, repeat=length)


def sequences_upto(alphabet, length, start=0):
    """All sequences of lengths start..length; shortest first."""
    for n in range(start, length + 1):
        yield from itertools.product(alphabet, repeat=n)


def compositions(n, parts=None):
    """All ordered partitions of n into positive parts (optionally restricted to parts)."""
    if n == 0:
        yield ()
        return
    for k in (parts or range(1, n + 1)):
        if k <= n:
            for rest in compositions(n - k, parts):
                yield (k,) + rest


def close(a, b, tol=1e-9):
    """Scalar closeness (absolute + relative), NaN never close."""
    return abs(a - b) <= tol * max(1., abs(a), abs(b))


def seq_close(a, b, tol=1e-9):
    """Sequence closeness."""
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if not abs(x - y) <= tol * max(1., abs(x), abs(y)):
            return False
    return True


def expect_raises(func, *args, **kwargs):
    """True if func raises an Exception."""
    try:
        func(*args, **kwargs)
    except Exception:  # pylint: disable=broad-except
        return True
    return False


def isfinite(x):
    return not (math.isinf(x) or math.isnan(x))
