"""Shared vocabulary: units, violations, the context handed to every check."""
import hashlib
import json
from collections import Counter


class Violation(Exception):
    """The property does not hold on this case.  `case` replaces the generated case in the
    replay file where the failure needs more (an earlier history of the process)."""

    def __init__(self, msg, case=None):
        super().__init__(msg)
        self.case = case


class Unit:
    """One generated-input search: a strategy producing JSON-able cases and a pure
    check(case, ctx) raising Violation.  `cost` (s) only orders the work."""

    def __init__(self, name, strategy, check, quick=100, thorough=None, cost=1.0, env=None):
        self.name = name
        self.strategy = strategy  # callable -> hypothesis strategy (lazy)
        self.check = check
        self.n = {"quick": quick, "thorough": thorough if thorough is not None else quick * 10}
        self.cost = cost
        self.env = env or {}  # extra environment of the worker that runs it


def jdump(case):
    return json.dumps(case, separators=(",", ":"), sort_keys=True)


class Ctx:
    """Counters measured while a unit runs."""

    def __init__(self):
        self.labels = Counter()
        self.evaluations = 0
        self.calls = 0
        self.seen = set()
        self._nt = False
        self.samples = []

    def begin(self):
        self._nt = False
        self._lab = set()
        self._calls0 = self.calls
        self.evaluations += 1

    @property
    def called(self):
        """the code under test was called in this case"""
        return self.calls > self._calls0

    def nontrivial(self, cond=True):
        if cond:
            self._nt = True

    def label(self, *names):
        for n in names:
            self._lab.add(n)

    def end(self, case):
        for n in self._lab:
            self.labels[n] += 1
        if self._nt:
            s = jdump(case)
            h = hashlib.blake2b(s.encode(), digest_size=8).hexdigest()
            if h not in self.seen:
                self.seen.add(h)
                if not self.samples or len(self.seen) in (7, 40):  # the first ones are Hypothesis' simplest
                    self.samples.append(s[:600])

    def call(self, what, fn, *args, **kw):
        """Call code under test on input the property says is valid: an exception is
        a violation, because no result comes back."""
        self.calls += 1
        try:
            return fn(*args, **kw)
        except MemoryError:
            raise
        except Exception as e:  # noqa: BLE001
            msg = "%s: %s" % (type(e).__name__, str(e).strip().replace("\n", " ")[:400])
            raise Violation("%s raised %s" % (what, msg))

    def rejects(self, what, fn, *args, **kw):
        """Call that must raise (any ordinary exception)."""
        self.calls += 1
        try:
            r = fn(*args, **kw)
        except Exception:  # noqa: BLE001
            return
        raise Violation("%s was accepted (returned %s) but has to be rejected" % (what, str(r)[:200]))


def fail(msg):
    raise Violation(msg)


def require(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)
