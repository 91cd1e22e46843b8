"""Checks, properties, and the search engine around hypothesis.

A *property* (Prop) is a set of *checks*. A check is a function ``f(case, t)`` together with a
hypothesis strategy that generates JSON-able cases. It calls ``t.require(cond, msg)`` and
``t.nontrivial(cond)``; whatever it raises from inside pymoo on a case that the property admits is a
violation as well. Every case is plain JSON, so a shrunk failure is a plain replay file.
"""
import hashlib
import json
import os
import signal
import sys
import time
import traceback

import numpy as np

from . import boot


class Violation(AssertionError):
    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.sig = sig


class Hang(BaseException):
    pass


class Skip(Exception):
    """The case is outside the property's precondition (counted, but neither passed nor failed)."""


def jsonable(x):
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (set, tuple)):
        return list(x)
    return str(x)


class T:
    """What a check is given to talk to the engine."""

    def __init__(self):
        self.nt = False
        self.label = None

    def nontrivial(self, cond=True, label=None):
        if cond:
            self.nt = True
        if label:
            self.label = label

    def fail(self, msg, sig=None):
        raise Violation(msg, sig)

    def require(self, cond, msg, sig=None):
        if isinstance(cond, np.ndarray):
            cond = bool(cond.all())
        if not cond:
            raise Violation(msg() if callable(msg) else msg, sig)

    def close(self, a, b, msg, rtol=1e-9, atol=1e-12, sig=None):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape:
            raise Violation(f"{msg}: shape {a.shape} != expected {b.shape}", sig)
        if not np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True):
            raise Violation(f"{msg}: got {a.tolist()} expected {b.tolist()}"[:1500], sig)

    def equal(self, a, b, msg, sig=None):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or not (
            np.array_equal(a, b, equal_nan=True) if a.dtype.kind == "f" and b.dtype.kind == "f" else np.array_equal(a, b)
        ):
            raise Violation(f"{msg}: got {a.tolist()} expected {b.tolist()}"[:1500], sig)

    def raises(self, f, msg, exc=Exception, sig=None):
        try:
            f()
        except exc:
            return
        raise Violation(msg, sig)


class Check:
    def __init__(self, f, strategy, quick, thorough, shards, hang, name=None):
        self.f, self.strategy, self.quick, self.thorough = f, strategy, quick, thorough
        self.shards = shards
        self.hang = hang
        self.name = name or f.__name__


class Prop:
    def __init__(self, id, rule, assumptions=(), warmup=None):
        self.id, self.rule, self.assumptions, self.warmup = id, rule, list(assumptions), warmup
        self.checks = {}

    def check(self, strategy, quick=200, thorough=5000, shards=(1, 4), hang=120):
        def deco(f):
            c = Check(f, strategy, quick, thorough, shards, hang)
            assert c.name not in self.checks, c.name
            self.checks[c.name] = c
            return f
        return deco


def case_key(case):
    return json.dumps(case, sort_keys=True, default=jsonable)


def from_pymoo(tb):
    """Did the exception leave pymoo's own code (Python or compiled)?"""
    for fr in traceback.extract_tb(tb):
        fn = fr.filename
        if fn.startswith(boot.REPO + "/pymoo") or fn.startswith("pymoo/"):
            return True
    return False


def where(tb):
    last = ""
    for fr in traceback.extract_tb(tb):
        if fr.filename.startswith(boot.REPO + "/pymoo") or fr.filename.startswith("pymoo/"):
            last = f"{fr.filename.replace(boot.REPO + '/', '')}:{fr.name}"
    return last


class HarnessError(Exception):
    pass


def run_case(check, case):
    """-> (T, None) or (T, (message, sig)); raises HarnessError."""
    t = T()
    fresh = json.loads(json.dumps(case, default=jsonable))

    def on_alarm(*_):
        raise Hang()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(check.hang)
    try:
        try:
            check.f(fresh, t)
        finally:
            signal.alarm(0)
        return t, None
    except Skip:
        t.nt = False
        return t, None
    except Violation as e:
        return t, (str(e), e.sig)
    except Hang:
        return t, (f"no result within {check.hang} s (normally milliseconds to seconds)", "hang")
    except Exception as e:
        if from_pymoo(e.__traceback__):
            w = where(e.__traceback__)
            return t, (f"unexpected {type(e).__name__} from {w}: {str(e)[:500]}", f"{type(e).__name__}@{w}")
        if isinstance(e, (ImportError, MemoryError, OSError)):
            raise HarnessError("".join(traceback.format_exception(e))) from e
        # the result was not of the kind the oracle can even read (missing, wrong type, wrong shape)
        fr = traceback.extract_tb(e.__traceback__)[-1]
        return t, (f"unusable result: {type(e).__name__}: {str(e)[:300]} at {os.path.basename(fr.filename)}:{fr.lineno}",
                   f"unusable:{type(e).__name__}")


class Found(Exception):
    pass


class TimeUp(KeyboardInterrupt):
    """ends the generation; hypothesis lets it through"""


def search(prop, check, examples, seed, deadline, known, progress_path, shrink_s=25.0):
    """One shard: generate, evaluate, shrink. Returns a JSON-able dict."""
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import seed as hseed

    res = dict(evaluations=0, nontrivial=set(), samples=[], failure=None, known=[], labels={}, skipped_time=0)
    st = dict(first=None, best=None, bad={}, t0=None)

    def body(case):
        now = time.time()
        key = case_key(case)
        if st["t0"] is not None and now - st["t0"] > shrink_s:
            if key in st["bad"]:
                raise Found(key)
            return
        if st["t0"] is None and now > deadline:
            res["skipped_time"] += 1
            raise TimeUp()
        with open(progress_path, "w") as fh:
            fh.write(key)
        t, bad = run_case(check, case)
        if st["t0"] is None:
            res["evaluations"] += 1
            if t.nt:
                h = hashlib.md5(key.encode()).hexdigest()
                if h not in res["nontrivial"]:
                    res["nontrivial"].add(h)
                    if len(res["samples"]) < 2 and len(key) < 4000:
                        res["samples"].append(json.loads(key))
            if t.label:
                res["labels"][t.label] = res["labels"].get(t.label, 0) + 1
        if bad is not None:
            for k in known:
                if k["check"] == check.name and k["sig"] == bad[1] and bad[1] is not None:
                    if k["id"] not in res["known"]:
                        res["known"].append(k["id"])
                    return
            if st["t0"] is None:
                st["t0"] = time.time()
            st["bad"][key] = bad
            if st["best"] is None or len(key) <= len(st["best"][0]):
                st["best"] = (key, bad)
            if bad[1] == "hang":
                st["t0"] = 0.0  # never shrink a hang
            raise Found(key)

    test = settings(max_examples=examples, database=None, deadline=None, derandomize=False,
                    report_multiple_bugs=False, print_blob=False,
                    phases=[Phase.generate, Phase.shrink],
                    suppress_health_check=list(HealthCheck))(given(check.strategy)(body))
    test = hseed(seed)(test)
    try:
        test()
    except (HarnessError, TimeUp):
        if not res["skipped_time"]:
            raise
    except BaseException:
        if st["best"] is None:
            raise
    if st["best"] is not None:
        key, bad = st["best"]
        res["failure"] = dict(case=json.loads(key), message=bad[0], sig=bad[1])
    res["nontrivial"] = sorted(res["nontrivial"])
    return res
