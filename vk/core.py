"""Shared machinery of the generated-input checks.

A *sub-check* is a (strategy, check) pair registered under a property id.  The
strategy draws a JSON-serialisable case, the check runs the real code on it and
compares what it does with an independent oracle:

* `require(cond, msg)` raises Violation when the oracle disagrees;
* `with sut("..."):` surrounds calls into scikit-mine, on inputs its contract
  accepts: an exception that escapes there is a violation as well;
* any other exception is an error of the harness, never reported as a violation.

The check returns (nontrivial: bool, labels: iterable of str).
"""
import contextlib
import hashlib
import json
import os
import signal
import sys
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    pass


class HarnessError(Exception):
    pass


class Hang(BaseException):
    pass


REGISTRY = {}  # property id -> [Sub]


class Sub:
    def __init__(self, prop, name, strategy, check, quick, thorough, rule, examples=(), shards=None):
        self.prop, self.name, self.strategy, self.check = prop, name, strategy, check
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.examples = list(examples)
        self.shards = shards


def sub(prop, name, strategy, quick, thorough=None, rule="", examples=(), shards=None):
    """Register a sub-check; quick / thorough are total numbers of generated cases."""

    def deco(fn):
        REGISTRY.setdefault(prop, []).append(
            Sub(prop, name, strategy, fn, quick, thorough or quick * 20, rule, examples, shards))
        return fn

    return deco


def _short(x, n=1500):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[: n - 20] + "...(%d chars)" % len(s)


def require(cond, msg, *vals):
    if not cond:
        if vals:
            msg = msg + " | " + " | ".join(_short(v, 600) for v in vals)
        raise Violation(msg)


def same(got, want, what):
    if got != want:
        raise Violation("%s: got %s, expected %s" % (what, _short(got, 700), _short(want, 700)))


def close(got, want, what, rel=1e-6, abs_=1e-9):
    try:
        ok = abs(float(got) - float(want)) <= max(abs_, rel * max(abs(float(want)), abs(float(got))))
    except (TypeError, ValueError):
        ok = False
    if got == want:
        ok = True
    if not ok:
        raise Violation("%s: got %r, expected %r" % (what, got, want))


@contextlib.contextmanager
def sut(what="call"):
    """Calls into the code under test on a valid input: nothing may escape."""
    try:
        yield
    except (Violation, HarnessError):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        last = tb[-1]
        where = "%s:%s" % (os.path.basename(last.filename), last.name)
        raise Violation("%s raised %s: %s (%s)" % (what, type(e).__name__, _short(str(e), 300), where)) from e


def raises(exc, fn, what):
    """fn() must raise exc (or a subclass)."""
    try:
        r = fn()
    except exc as e:
        return e
    except (Violation, HarnessError):
        raise
    except Exception as e:
        raise Violation("%s: raised %s (%s) instead of %s" % (what, type(e).__name__, e, exc))
    raise Violation("%s: accepted, returned %s" % (what, _short(r, 200)))


def digest(sub_name, case):
    return hashlib.sha256((sub_name + json.dumps(case, sort_keys=True)).encode()).hexdigest()[:16]


CPU_LIMIT = float(os.environ.get("VERIF_CASE_CPU", "100"))


def _on_alarm(signum, frame):
    raise Hang()


def run_case(s, case):
    """Run one (JSON) case.  -> (nontrivial, labels); raises Violation."""
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        r = s.check(case)
    except Hang:
        raise Violation("no result after %d s of processor time on this small input" % CPU_LIMIT)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    if r is None:
        return True, ()
    if isinstance(r, bool):
        return r, ()
    return r


def setup_hypothesis():
    """hypothesis is not in the interpreter that has the project's dependencies:
    take it (and only it) from the tooling venv, or from the offline wheel."""
    try:
        import hypothesis  # noqa: F401
        return
    except ImportError:
        pass
    import importlib.machinery
    roots = ["/opt/veriftools/pyvenv/lib/python3.12/site-packages"]
    names = {"hypothesis", "_hypothesis_ftz_detector", "_hypothesis_globals", "attr", "attrs"}

    class Finder:
        @staticmethod
        def find_spec(fullname, path=None, target=None):
            if fullname.split(".")[0] in names and path is None:
                return importlib.machinery.PathFinder.find_spec(fullname, roots)
            return None

    sys.meta_path.append(Finder)
    import hypothesis  # noqa: F401


def setup_repo():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import skmine
    p = os.path.realpath(skmine.__file__)
    if not p.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError("skmine imported from %s, not from %s" % (p, REPO))
