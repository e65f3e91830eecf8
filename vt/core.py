"""Conformance harness: compares what the code did with what the specification says.

A check module (checks/pXX.py) provides

    ID, LEVEL, TECHNIQUE, RULE       identification and evidence text
    jobs(tier, seed) -> [Job]        which behaviours of which specification to generate
    run(job, trace, chk)             replay one behaviour into the real code

``chk`` is a :class:`Recorder`.  Every comparison is counted; a mismatch is recorded as a
violation together with the behaviour prefix that led to it.
"""
import contextlib
import hashlib
import json
import math
import traceback
from fractions import Fraction

SC = 2 ** 112


def fx(v):
    """fixed point -> float (correctly rounded)"""
    if isinstance(v, (list, tuple)):
        return [fx(x) for x in v]
    return float(Fraction(v, SC))


def exact(v):
    """fixed point -> double, which must be exact: the code gets the specification's input unchanged"""
    if isinstance(v, (list, tuple)):
        return [exact(x) for x in v]
    f = float(Fraction(v, SC))
    if Fraction(f) != Fraction(v, SC):
        raise AssertionError(f"specification input {v} is not a double")
    return f


class Stop(Exception):
    """abandon the current behaviour (already recorded as a violation)"""


class Recorder:
    def __init__(self, prop):
        self.prop = prop
        self.evals = 0
        self.steps = 0
        self._seen = set()
        self.traces = 0
        self.by = {}
        self.digests = set()
        self.violations = []
        self.findings = []
        self.samples = []
        self.ctx = None       # (job, trace, index)
        self.maxerr = {}

    # -- context ------------------------------------------------------------
    def at(self, job, trace, i):
        self.ctx = (job, trace, i)
        if (self.traces, i) not in self._seen:
            self._seen.add((self.traces, i))
            self.steps += 1

    # -- comparisons --------------------------------------------------------
    def _count(self, name, key):
        self.evals += 1
        self.by[name] = self.by.get(name, 0) + 1
        self.digests.add(hashlib.blake2b(repr((name, key)).encode(), digest_size=8).hexdigest())

    def ok(self, name, cond, detail="", key=None):
        self._count(name, key if key is not None else (self.steps, detail))
        if not cond:
            self.fail(name, detail)
        return bool(cond)

    def equal(self, name, got, want, detail=""):
        return self.ok(name, got == want, f"got {got!r}, specification says {want!r}. {detail}",
                       key=repr(want)[:200] + detail[:200])

    def close(self, name, got, want, rtol=1e-9, atol=1e-12, detail=""):
        """want: float / (nested) list of floats; got: array-like of the same shape"""
        import numpy as np
        try:
            g = np.asarray(got, dtype=float)
        except Exception as e:  # not numeric at all
            self._count(name, repr(want)[:200])
            self.fail(name, f"non-numeric result {got!r} ({e}); specification says {want!r}. {detail}")
            return False
        w = np.asarray(want, dtype=float)
        self._count(name, w.tobytes())
        if g.shape != w.shape:
            self.fail(name, f"shape {g.shape}, specification says {w.shape}; got {g.tolist()!r}, "
                            f"want {w.tolist()!r}. {detail}")
            return False
        if g.size == 0:
            return True
        err = np.abs(g - w)
        tol = atol + rtol * np.abs(w)
        bad = ~(err <= tol)
        q = float(np.max(np.where(np.isfinite(err), err / tol, np.inf)))
        self.maxerr[name] = max(self.maxerr.get(name, 0.0), q)
        if bad.any():
            i = int(np.argmax(np.where(np.isfinite(err), err / tol, np.inf)))
            self.fail(name, f"got {g.ravel()[i]!r}, specification says {w.ravel()[i]!r} "
                            f"(element {i} of shape {g.shape}, tolerance {tol.ravel()[i]:.3g}). {detail}")
            return False
        return True

    def fail(self, name, detail):
        job, trace, i = self.ctx if self.ctx else (None, None, None)
        if len(self.violations) < 200:
            prefix = None
            if trace is not None:
                prefix = trace[: i + 1] if (job or {}).get("history") else [trace[i]]
            self.violations.append({"clause": name, "detail": str(detail)[:2000], "job": job,
                                    "step": i, "trace": prefix})
        else:
            self.violations.append({"clause": name, "detail": "", "job": None, "step": i, "trace": None})

    @contextlib.contextmanager
    def code(self, name, detail=""):
        """run code under test; an exception there contradicts the specification"""
        try:
            yield
        except (Stop, KeyboardInterrupt, MemoryError):
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = " <- ".join(f"{f.filename.split('/')[-1]}:{f.lineno}" for f in tb[-4:][::-1])
            self._count(name, "exc")
            self.fail(name, f"the call raised {type(e).__name__}: {str(e)[:500]} [{where}]. {detail}")
            raise Stop() from None

    def raises(self, name, exc, fn, detail=""):
        """fn must raise one of exc"""
        self._count(name, detail)
        try:
            r = fn()
        except exc:
            return True
        except Exception as e:
            self.fail(name, f"raised {type(e).__name__}: {str(e)[:300]} instead of {exc}. {detail}")
            return False
        self.fail(name, f"accepted (returned {str(r)[:200]}), specification says it is rejected. {detail}")
        return False

    def sample(self, obj):
        if len(self.samples) < 6:
            self.samples.append(obj)


def run_job(mod, job, rec):
    """generate the behaviours of one job and replay them"""
    from . import quint
    traces = quint.run(job["spec"], main=job.get("main"), init=job.get("init", "init"),
                       step=job.get("step", "step"), steps=job["steps"], seed=job["seed"],
                       invariant=job.get("invariant"), traces=job.get("traces", 1))
    for tr in traces:
        replay_trace(mod, job, tr, rec)


def replay_trace(mod, job, tr, rec):
    rec.traces += 1
    if hasattr(mod, "run_trace"):
        try:
            mod.run_trace(job, tr, rec)
        except Stop:
            pass
        return
    for i, st in enumerate(tr):
        rec.at(job, tr, i)
        try:
            mod.run_state(job, st, rec)
        except Stop:
            pass


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x
    if isinstance(x, int):
        return x if abs(x) < 2 ** 53 else {"#bigint": str(x)}
    if isinstance(x, float):
        return x if math.isfinite(x) else repr(x)
    return repr(x)
