"""Core of the property-based checks: drawing, suites, workers, replay.

A *suite* draws a JSON-able spec with gen(d) - every random choice goes through `d`, which is
backed by Hypothesis - and decides it with run(spec), a deterministic function that executes the
real converter and an oracle.  run() raises Violation when the property is broken and Reject when
the spec is outside of the property's domain; it returns an Info otherwise.
"""
import collections
import hashlib
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


class Violation(Exception):
    """The property does not hold for this spec."""


class Reject(Exception):
    """The spec is not in the domain of the property."""


class OutOfBudget(BaseException):
    """Stops Hypothesis when shrinking has taken long enough."""


class Info:
    """What one decided case exercised."""

    def __init__(self, nontrivial=True, classes=(), evals=1, key=None):
        self.nontrivial = nontrivial
        self.classes = list(classes)
        self.evals = evals
        self.key = key


class D:
    """Drawing primitives over a Hypothesis data object."""

    def __init__(self, data):
        import hypothesis.strategies as st
        self._draw = data.draw
        self._st = st
        self.avoided = collections.Counter()

    _ints = {}

    def int(self, lo, hi):
        assert lo <= hi, (lo, hi)
        if lo == hi:
            return lo
        k = (lo, hi)
        s = D._ints.get(k)
        if s is None:
            s = D._ints[k] = self._st.integers(lo, hi)
        return self._draw(s)

    def bool(self):
        return self.int(0, 1) == 1

    def prob(self, pct):
        return self.int(0, 99) >= 100 - pct

    def choice(self, seq):
        seq = list(seq)
        return seq[self.int(0, len(seq) - 1)]

    def weighted(self, pairs):
        """pairs: [(weight, value)]"""
        tot = sum(w for w, _ in pairs)
        n = self.int(0, tot - 1)
        for w, v in pairs:
            if n < w:
                return v
            n -= w
        raise AssertionError

    def ints(self, n, lo, hi):
        return [self.int(lo, hi) for _ in range(n)]

    def perm(self, n):
        rest, out = list(range(n)), []
        while rest:
            out.append(rest.pop(self.int(0, len(rest) - 1)))
        return out

    def subset(self, seq, lo=0, hi=None):
        seq = list(seq)
        hi = len(seq) if hi is None else min(hi, len(seq))
        n = self.int(min(lo, hi), hi)
        p = self.perm(len(seq))[:n]
        return [seq[i] for i in sorted(p)]

    def seed(self):
        return self.int(0, 99999)

    def dim(self, zero=False, hi=5):
        if zero and self.prob(6):
            return 0
        return self.int(1, hi)

    def shape(self, lo=0, hi=4, zero=False, dim=5):
        r = self.int(lo, hi)
        return [self.dim(zero, dim) for _ in range(r)]

    def float(self, lo, hi, steps=1000):
        return round(lo + (hi - lo) * self.int(0, steps) / steps, 6)

    def avoid(self, finding, cond):
        """True when cond describes inputs of a listed known finding; the caller then picks other inputs."""
        if cond and finding in known_ids():
            self.avoided[finding] += 1
            return True
        return False


_known = None


def known_findings():
    global _known
    if _known is None:
        _known = []
        path = os.path.join(ROOT, "known_findings.jsonl")
        if os.path.exists(path):
            with open(path) as f:
                for line in f:
                    line = line.strip()
                    if line.startswith("{"):
                        _known.append(json.loads(line))
    return _known


def known_ids():
    return {k["id"] for k in known_findings() if k.get("status") == "known"}


class Suite:
    def __init__(self, name, gen, run, quick, thorough=None, rule="", describe=None):
        self.name, self.gen, self.run = name, gen, run
        self.quick, self.thorough = quick, thorough or quick * 12
        self.rule = rule
        self.describe = describe or (lambda spec: spec)


def load_suites(pid):
    import importlib
    sys.path.insert(0, os.path.join(ROOT, "props"))
    mod = importlib.import_module(pid.lower())
    return mod.SUITES


def stable_hash(obj):
    return hashlib.sha1(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()


CASE_LIMIT_S = float(os.environ.get("VERIF_CASE_LIMIT", "100"))


class CaseTimeout(BaseException):
    pass


def run_case(suite, spec):
    """Runs one case; one that does not come to an end is a violation."""
    def stop(*_):
        raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT_S, 5)
    try:
        return suite.run(spec)
    except CaseTimeout:
        raise Violation("the case does not come to an end within %d s" % CASE_LIMIT_S) from None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def run_suite(suite, n, seed, state, shrink_s=60, max_s=None):
    """Runs n Hypothesis examples; fills `state` (a dict which the caller saves)."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings
    import hypothesis.strategies as st
    from hypothesis.internal.conjecture.engine import ConjectureRunner
    # Hypothesis spends most of its examples on copies of earlier ones with repeated parts; programs of cells
    # gain more from fresh ones.
    ConjectureRunner.generate_mutations_from = lambda self, data: None

    st_ = state.setdefault(suite.name, {
        "evaluations": 0, "cases": 0, "nontrivial": [], "classes": {}, "rejects": 0, "avoided": {}, "samples": [],
        "failure": None, "wall_s": 0.0})
    t0 = time.time()
    nontrivial = set()
    classes = collections.Counter()
    avoided = collections.Counter()
    fail_t = [None]
    cur = os.environ.get("VERIF_CURRENT")

    def body(data):
        d = D(data)
        now = time.time()
        if fail_t[0] is not None and now - fail_t[0] > shrink_s:
            raise OutOfBudget()
        if fail_t[0] is None and max_s and now - t0 > max_s:
            raise OutOfBudget()
        try:
            spec = suite.gen(d)
        except Reject:
            st_["rejects"] += 1
            hypothesis.reject()
        finally:
            avoided.update(d.avoided)
        spec = json.loads(json.dumps(spec))
        if cur:
            with open(cur, "w") as f:
                json.dump({"suite": suite.name, "spec": spec}, f)
        try:
            info = run_case(suite, spec)
        except Reject:
            st_["rejects"] += 1
            hypothesis.reject()
        except Violation as e:
            if fail_t[0] is None:
                fail_t[0] = time.time()
            st_["failure"] = {"suite": suite.name, "spec": spec, "message": str(e)[:3000]}
            raise
        except Exception as e:  # noqa: BLE001 - a fault of the harness: no verdict
            st_["error"] = (traceback.format_exc()[-2500:] + "\nspec: " + json.dumps(spec)[:3000])
            raise OutOfBudget() from e
        if fail_t[0] is not None:
            return
        info = info or Info()
        st_["cases"] += 1
        st_["evaluations"] += info.evals
        for c in info.classes:
            classes[c] += 1
        if info.nontrivial:
            h = info.key if info.key is not None else stable_hash(spec)
            hs = h if isinstance(h, (list, set, tuple)) else [h]
            for x in hs:
                if x not in nontrivial:
                    nontrivial.add(x)
                    if len(st_["samples"]) < 3 and st_["cases"] % 7 == 3:
                        st_["samples"].append(suite.describe(spec))

    test = given(st.data())(body)
    test = hypothesis.seed(seed)(test)
    test = settings(max_examples=max(1, n), deadline=None, database=None, derandomize=False,
                    suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink],
                    report_multiple_bugs=False, print_blob=False, verbosity=Verbosity.quiet)(test)
    try:
        test()
    except Violation:
        pass
    except OutOfBudget:
        if st_["failure"] is None and not st_.get("error"):
            st_["out_of_time"] = True
    except BaseException as e:
        if st_["failure"] is not None and type(e).__name__ in ("Flaky", "FlakyFailure", "FlakyReplay", "FlakyStrategyDefinition", "ExceptionGroup"):
            pass
        elif type(e).__name__ == "Unsatisfiable" or st_.get("error"):
            pass
        elif "OutOfBudget" in traceback.format_exc() and type(e).__name__.startswith("Flaky"):
            st_["out_of_time"] = True
        else:
            st_["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
    st_["nontrivial"] = sorted(nontrivial)
    st_["classes"] = dict(classes)
    st_["avoided"] = dict(avoided)
    st_["wall_s"] = round(time.time() - t0, 1)
    return st_
