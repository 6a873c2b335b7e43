"""Helpers shared by all property modules."""

import hashlib
import io
import sys

import numpy as np

from . import seams
from .seams import IDS, SIM, REAL, SimCrash, SimStuck, SimClock


class Ctx:
    """Collects what one simulated run found."""

    def __init__(self):
        self.violations = []
        self.sig = []
        self.nontrivial = False
        self.steps = 0
        self.stuck = 0  # operations abandoned on a deterministic budget

    def bad(self, cls, msg):
        msg = str(msg)
        if SIM.disk is not None:
            msg = SIM.disk.mask(msg)
        self.violations.append({"cls": cls, "msg": msg[:600]})
        SIM.note("VIOLATION", cls)

    def check(self, ok, cls, msg=""):
        if not ok:
            self.bad(cls, msg() if callable(msg) else msg)
        return bool(ok)

    def mark(self, *what):
        self.sig.append(tuple(what))


def begin(seed=0):
    """Fresh simulated world."""
    SIM.reset()
    SIM.active = True
    SIM.clock = SimClock()
    SIM.solver_stub["minimize"] = minimize
    SIM.garbage = 54321.75
    IDS.reset(seed & 7)
    REAL["random.seed"](seed & 0xFFFFFFFF)


def minimize(*a, **kw):
    """The same minimiser, for fewer iterations (rascal asks for 10000)."""
    kw["options"] = dict(kw.get("options") or {}, maxiter=20)
    return REAL["minimize"](*a, **kw)


def end():
    SIM.active = False
    if SIM.disk is not None:
        SIM.disk.destroy()
        SIM.disk = None


def rng_state(seed):
    REAL["random.seed"](seed & 0xFFFFFFFF)


# -- canonical digests -------------------------------------------------------
def canon(o, depth=0):
    """A hashable, bit-exact description of a value made of plain data."""
    if o is None or isinstance(o, (bool, int, str, bytes)):
        return (type(o).__name__, o)
    if isinstance(o, float):
        return ("float", np.float64(o).tobytes().hex())
    if isinstance(o, np.generic):
        return canon(o.item(), depth)
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return (
                "objarr",
                o.shape,
                tuple(canon(v, depth + 1) for v in o.ravel().tolist()),
            )
        return (
            "arr",
            str(o.dtype),
            o.shape,
            hashlib.sha1(np.ascontiguousarray(o).tobytes()).hexdigest(),
        )
    if isinstance(o, (list, tuple)):
        return (
            type(o).__name__,
            tuple(canon(v, depth + 1) for v in o),
        )
    if isinstance(o, dict):
        return (
            "dict",
            tuple(
                (str(k), canon(v, depth + 1))
                for k, v in sorted(o.items(), key=lambda kv: str(kv[0]))
            ),
        )
    return ("obj", type(o).__name__)


def values(o):
    """Like canon, but only the numbers: lists and arrays are the same."""
    if o is None:
        return None
    if isinstance(o, (str, bytes, bool)):
        return o
    if isinstance(o, (int, float, np.generic)):
        return float(o).hex()
    if isinstance(o, np.ndarray):
        return values(o.tolist())
    if isinstance(o, (list, tuple)):
        return tuple(values(v) for v in o)
    if isinstance(o, dict):
        return tuple((str(k), values(v)) for k, v in sorted(o.items()))
    return type(o).__name__


def bulk(o):
    """values(), but one hash for anything long and numeric."""
    if o is None or isinstance(o, (str, bytes, bool)) or not hasattr(o, "__len__") or len(o) < 9:
        return values(o)
    try:
        a = np.ascontiguousarray(np.asarray(o, dtype=float))
    except (TypeError, ValueError):
        return values(o)
    return ("bulk", a.shape, hashlib.sha1(a.tobytes()).hexdigest())


def digest(o):
    return hashlib.sha1(repr(o).encode()).hexdigest()[:16]


# -- running an operation -----------------------------------------------------
class Outcome:
    """What an operation did: a value, or an exception."""

    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc

    @property
    def ok(self):
        return self.exc is None

    def brief(self):
        if self.exc is None:
            return "ok"
        return type(self.exc).__name__

    def __repr__(self):
        if self.exc is None:
            return "ok"
        return "%s: %s" % (type(self.exc).__name__, str(self.exc)[:200])


def bounded(ctx, fn, draws=20000, solves=400, **kw):
    """attempt() with a deterministic budget of draws and robust fits; None if
    it ran out (the operation is then inconclusive)."""
    SIM.draws = 0
    SIM.draw_budget = draws
    SIM.solver_budget = {
        "least_squares": SIM.solver_calls.get("least_squares", 0) + solves
    }
    try:
        return attempt(fn, **kw)
    except SimStuck:
        ctx.stuck += 1
        SIM.note("stuck")
        return None
    finally:
        SIM.draw_budget = None
        SIM.solver_budget = None
        ctx.steps += SIM.draws


def attempt(fn, catch=(Exception, KeyboardInterrupt, SimCrash)):
    try:
        return Outcome(fn())
    except SimStuck:
        raise
    except catch as e:
        return Outcome(exc=e.with_traceback(None))


class Quiet:
    """Swallow what the library prints."""

    def __enter__(self):
        self.o, self.e = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        return self

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.o, self.e


# -- the solution a calibrator holds (public attributes) -----------------------
SOLUTION = (
    "matched_peaks",
    "matched_atlas",
    "fit_coeff",
    "rms",
    "residual",
    "residuals",
    "peak_utilisation",
    "atlas_utilisation",
)


def solution(c, fields=SOLUTION):
    return {f: values(getattr(c, f, "<absent>")) for f in fields}


def fit_tuple(t):
    """The 7-tuple (or 5-tuple) of a fit as comparable numbers."""
    return values(t)


def close(a, b, rtol=1e-7, atol=1e-9):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))
