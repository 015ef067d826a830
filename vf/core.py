"""Vocabulary shared by all checks: Violation, sut() calls, case recording."""
import hashlib
import json
import traceback


class Violation(Exception):
    """The property does not hold for this case."""


class OutOfBudget(Exception):
    pass


class HarnessError(Exception):
    pass


def fail(msg):
    raise Violation(msg)


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def _from_missing_api(e, tb):
    """The harness asked for something the code under test does not have: an error of the check, not a violation."""
    last = tb[-1]
    return isinstance(e, (AttributeError, ImportError)) and "/vf/" in last.filename


def sut(fn, *args, **kw):
    """Call the code under test with input it has to accept: raising is a violation."""
    try:
        return fn(*args, **kw)
    except Violation:
        raise
    except MemoryError:
        raise HarnessError("out of memory")
    except Exception as e:  # noqa
        tb = traceback.extract_tb(e.__traceback__)
        if _from_missing_api(e, tb):
            raise
        where = " <- ".join("%s:%d" % (t.filename.split("/malstroem/")[-1], t.lineno) for t in reversed(tb[-3:]))
        raise Violation("raises %s: %s (%s)" % (type(e).__name__, str(e)[:300], where)) from e


class Aspect:
    """One generated check: strategy makes JSON-able cases, run(case, rec) raises Violation.

    quick/thorough: number of examples over all shards.
    """

    def __init__(self, name, strategy, run, quick, thorough, weight=1):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough = quick, thorough


class Recorder:
    """Counts what a run covered."""

    def __init__(self):
        self.evaluations = 0
        self.hashes = set()
        self.tags = {}
        self.samples = []
        self.known = {}
        self._case = None
        self._nontrivial = False

    def begin(self, aspect, case):
        self.evaluations += 1
        self._case = (aspect, case)
        self._nontrivial = False

    def nontrivial(self, *tags):
        self._nontrivial = True
        self.tag(*tags)

    def tag(self, *tags):
        for t in tags:
            self.tags[t] = self.tags.get(t, 0) + 1

    def knownfinding(self, key):
        self.known[key] = self.known.get(key, 0) + 1

    def end(self):
        if self._nontrivial:
            aspect, case = self._case
            s = json.dumps({"aspect": aspect, "case": case}, sort_keys=True)
            h = hashlib.sha1(s.encode()).hexdigest()[:16]
            if h not in self.hashes:
                self.hashes.add(h)
                per = sum(1 for a, _ in self.samples if a == aspect)
                if per < 2 and len(s) < 3000:
                    self.samples.append((aspect, case))
