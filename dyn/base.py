"""Concrete executions of the real code in /repo against independent oracles.

Used to turn a failed obligation into a failing input, as a cross-check of the
proofs, and as the bounded stand-in for code the verifier does not reach."""
import json
import os
import random
import signal
import sys
import traceback
import time as _time

monotonic = _time.monotonic
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))

from pyvc import loader  # noqa: E402


def load():
    import logging
    logging.disable(logging.CRITICAL)
    idx = loader.load_all()
    return idx.modules


class Violation(Exception):
    pass


def blame(e):
    """Is an unexpected exception the fault of the code under test (and not
    of a harness or of a stand-in that lacks something)?"""
    tb = traceback.extract_tb(e.__traceback__)
    if not any(os.sep + "paf" + os.sep in f.filename for f in tb):
        return False
    o = getattr(e, "obj", None)
    if isinstance(e, AttributeError) and o is not None and \
       type(o).__module__.startswith("dyn"):
        return False
    if os.path.dirname(tb[-1].filename) == HERE and \
       not isinstance(e, OSError):
        return False
    if isinstance(e, TypeError) and "dyn" in str(e):
        return False
    return True


class Hang(BaseException):
    pass


class Clock:
    def __init__(self, t=1000.0):
        self.t = t
        self.real = _time.time

    def __call__(self):
        return self.t

    def install(self):
        _time.time = self

    def uninstall(self):
        _time.time = self.real


def check(cond, *msg):
    if not cond:
        raise Violation(" ".join(str(m) for m in msg))


class alarm:
    """Turns a hang into a Hang exception."""
    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        def h(sig, frm):
            raise Hang()
        self.old = signal.signal(signal.SIGALRM, h)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


class Harness:
    """One property (or several sharing executions).

    gen(rng) -> case (JSON-able); run(case) raises Violation; a case that is
    a list, or a dict with key 'ops', is shrunk by dropping elements."""
    name = "?"
    rule = ""
    hang_s = 10
    hang_is_violation = True
    exhaustive = ()

    def __init__(self, mods, prop):
        self.m = mods
        self.prop = prop

    def fixed(self):
        """Cases always run first."""
        return []

    def gen(self, rng):
        raise NotImplementedError

    def run(self, case):
        raise NotImplementedError

    def nontrivial(self, case):
        return True

    def attempt(self, case):
        try:
            with alarm(self.hang_s):
                self.run(case)
            return None
        except Violation as e:
            return str(e)
        except Exception as e:
            if not blame(e):
                raise
            tb = traceback.extract_tb(e.__traceback__)
            return "%s: %s (in %s, %s)" % (
                type(e).__name__, str(e)[:200], tb[-1].name,
                os.path.basename(tb[-1].filename))
        except Hang:
            return "the code under test did not come to an end within " \
                "%d s" % self.hang_s if self.hang_is_violation else None

    def shrink(self, case, budget=6.0):
        end = monotonic() + budget
        ops = case["ops"] if isinstance(case, dict) and "ops" in case else \
            case if isinstance(case, list) else None
        if ops is None:
            return case

        def mk(o):
            if isinstance(case, dict):
                c = dict(case)
                c["ops"] = o
                return c
            return o
        n = max(1, len(ops) // 2)
        while n >= 1 and monotonic() < end:
            i = 0
            while i < len(ops) and monotonic() < end:
                cand = ops[:i] + ops[i + n:]
                try:
                    bad = self.attempt(mk(cand)) is not None
                except Exception:
                    bad = False
                if bad:
                    ops = cand
                else:
                    i += n
            n //= 2
        return mk(ops)


class Result:
    def __init__(self):
        self.evaluations = 0
        self.distinct = 0
        self.samples = []
        self.violations = []
        self.harnesses = []
        self.errors = []


def drive(h, seed, budget, res, max_cases=None, stop_at=1):
    rng = random.Random(seed * 1000003 + hash_name(h.name))
    end = monotonic() + budget
    seen = set()
    n = 0
    found = 0

    def one(case):
        nonlocal n, found
        n += 1
        key = json.dumps(case, sort_keys=True, default=str)
        if h.nontrivial(case) and key not in seen:
            seen.add(key)
            if len(res.samples) < 4:
                res.samples.append({"harness": h.name, "case": key[:600]})
        why = h.attempt(case)
        if why is not None:
            small = h.shrink(case)
            why2 = h.attempt(small) or why
            res.violations.append({"harness": h.name, "what": why2,
                                   "case": small})
            found += 1
    for case in h.fixed():
        one(case)
        if found >= stop_at:
            break
    bad = 0
    while found < stop_at and monotonic() < end and bad < 20 and \
            (max_cases is None or n < max_cases):
        try:
            one(h.gen(rng))
        except Exception:
            bad += 1
            if bad == 1:
                res.errors.append("%s: %s" % (
                    h.name, traceback.format_exc()[-1500:]))
    res.evaluations += n
    res.distinct += len(seen)
    res.harnesses.append({"harness": h.name, "cases": n,
                          "distinct_nontrivial": len(seen), "rule": h.rule})


def hash_name(s):
    v = 0
    for c in s:
        v = (v * 131 + ord(c)) % 1000003
    return v
