"""The seams: every source of nondeterminism rascal meets, owned by the simulator.

``install()`` must run before rascal is imported.  It replaces, at module
attribute level:

* the global random generator functions of ``numpy.random``  (randomness)
* the numerical solvers rascal calls                        (faults: LinAlgError, ...)
* ``time.time`` & friends, and tqdm's copies of them        (clocks)
* ``open`` and the ``os`` calls on the simulated disk       (I/O; see disk.py)

All wrappers are transparent unless a simulation is active (``SIM.active``), and
then only do what the current plan tells them to.  Nothing in here draws from a
random generator or reads a real clock.
"""

import builtins
import io
import logging
import os
import random
import sys
import time
import warnings
import weakref

REPO_SRC = os.environ.get("DST_REPO_SRC", "/repo/src")


class SimCrash(BaseException):
    """The simulated process dies here."""


class SimStuck(BaseException):
    """A step budget of the simulator ran out (deterministic)."""


class SimStop(BaseException):
    """The scheduler abandons a task (only when tearing a run down)."""


class Ids:
    """Addresses of objects, as ``id`` and the default hash show them to rascal.

    The n-th object asked about lies at an address that depends on the run's
    salt only; the address of an object that is gone is given to a later one,
    as allocators do.
    """

    def __init__(self):
        self.reset(0)

    def reset(self, salt):
        self.salt = salt
        self.n = 0
        self.free = []
        self.table = {}

    def of(self, o):
        key = REAL["id"](o)
        got = self.table.get(key)
        if got is not None and got[0]() is o:
            return got[1]
        if got is not None:
            self.free.append(got[1])
        try:
            ref = weakref.ref(o)
        except TypeError:

            def ref(o=o):
                return o

        if self.free and self.salt & 1:
            at = self.free.pop()
        else:
            self.n += 1
            at = 0x7F0000000000 + 16 * ((self.n * (2 * self.salt + 1) ^ self.salt) & 0xFFFFFF)
        self.table[key] = (ref, at)
        return at


IDS = Ids()


class Sim:
    """State of the current simulated run; reset() between runs."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.active = False
        self.log = []
        self.draws = 0  # number of calls into the random seam
        self.draw_budget = None
        self.adversary = None  # object with .choice(a, size, replace, p)
        self.choice_observer = None
        self.reseeds = []  # seeds the code under test asked for
        self.solver_calls = {}
        self.solver_budget = None  # {site: calls}
        self.solver_faults = []  # [{site, nth, exc, repeat}]
        self.solver_observer = None
        self.solver_stub = {}  # site -> replacement computation
        self.solver_result_hook = None
        self.fired = {}  # fault kind -> times it really fired
        self.probes = {}
        self.yield_hook = None  # scheduler pre-emption at seam calls
        self.clock = None  # SimClock
        self.disk = None  # SimDisk
        self.entropy_base = 12345
        self.entropy_n = 0
        self.own = []  # generators given a seed of the library's own making
        self.state_reads = 0
        self.garbage = None  # what uninitialised memory holds
        IDS.reset(0)

    def entropy(self):
        """What an unseeded generator gets instead of the system's entropy."""
        self.entropy_n += 1
        return (self.entropy_base + 7919 * self.entropy_n) & 0x7FFFFFFF

    def note(self, *what):
        self.log.append(" ".join(str(w) for w in what))

    def fire(self, kind, n=1):
        self.fired[kind] = self.fired.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n


REAL = {"id": id}
SIM = Sim()


class SimClock:
    """A clock that only moves when the plan says so."""

    def __init__(self, start=1.6e9, steps=(0.01,)):
        self.now = start
        self.mono = 1000.0
        self.steps = list(steps)
        self.i = 0
        self.reads = 0
        self.jumps = 0
        self.travelled = 0.0

    def _tick(self):
        d = self.steps[self.i % len(self.steps)]
        self.i += 1
        self.reads += 1
        if d < 0 or d > 60:
            self.jumps += 1
        self.travelled += abs(d)
        return d

    def time(self):
        d = self._tick()
        self.now += d
        if d > 0:
            self.mono += d
        return self.now

    def monotonic(self):
        d = self._tick()
        self.now += d
        if d > 0:
            self.mono += d
        return self.mono


EXC = {}


def _exc(name):
    import numpy as np

    table = {
        "LinAlgError": lambda: np.linalg.LinAlgError(
            "SVD did not converge (simulated)"
        ),
        "RuntimeError": lambda: RuntimeError(
            "Optimal parameters not found (simulated)"
        ),
        "ValueError": lambda: ValueError(
            "Residuals are not finite in the initial point (simulated)"
        ),
        "MemoryError": lambda: MemoryError("simulated"),
        "KeyboardInterrupt": lambda: KeyboardInterrupt("simulated"),
        "FloatingPointError": lambda: FloatingPointError("simulated"),
    }
    return table[name]()


def _wrap_random(np):
    """Module functions of numpy.random that use the global generator."""

    names = [
        "choice",
        "random",
        "random_sample",
        "rand",
        "randn",
        "randint",
        "uniform",
        "normal",
        "shuffle",
        "permutation",
        "standard_normal",
        "ranf",
        "sample",
        "exponential",
        "binomial",
        "poisson",
    ]

    def make(name, real):
        def draw(*args, **kwargs):
            s = SIM
            if not s.active:
                return real(*args, **kwargs)
            s.draws += 1
            if s.draw_budget is not None and s.draws > s.draw_budget:
                raise SimStuck("draw budget %d" % s.draw_budget)
            if s.yield_hook is not None:
                s.yield_hook("rng")
            if name == "choice" and s.adversary is not None:
                return s.adversary.choice(real, *args, **kwargs)
            out = real(*args, **kwargs)
            if name == "choice" and s.choice_observer is not None:
                s.choice_observer(args, kwargs, out)
            return out

        draw.__name__ = name
        return draw

    for n in names:
        REAL["random." + n] = getattr(np.random, n)
        setattr(np.random, n, make(n, getattr(np.random, n)))

    REAL["random.seed"] = np.random.seed

    def seed(*args, **kwargs):
        if SIM.active:
            given = args[0] if args else kwargs.get("seed")
            SIM.reseeds.append(given)
            if given is None:
                return REAL["random.seed"](SIM.entropy())
        return REAL["random.seed"](*args, **kwargs)

    np.random.seed = seed

    def own(seed):
        SIM.probe("own-generator")
        if seed is None:
            return SIM.entropy()
        if not SIM.draws and not SIM.state_reads:
            SIM.own.append(str(seed)[:60])
        return seed

    real_state = REAL["get_state"] = np.random.get_state

    def get_state(*args, **kwargs):
        SIM.state_reads += 1
        return real_state(*args, **kwargs)

    np.random.get_state = get_state

    real_rng = REAL["default_rng"] = np.random.default_rng

    def default_rng(seed=None):
        if SIM.active:
            seed = own(seed)
        return real_rng(seed)

    np.random.default_rng = default_rng

    REAL["RandomState"] = np.random.RandomState

    class RandomState(np.random.RandomState):
        def __init__(self, seed=None):
            if SIM.active:
                seed = own(seed)
            super().__init__(seed)

    np.random.RandomState = RandomState


def _wrap_memory(np):
    """Memory nobody has written to yet holds what the plan says."""

    def make(real):
        def empty(*args, **kwargs):
            out = real(*args, **kwargs)
            g = SIM.garbage
            if SIM.active and g is not None and out.dtype.kind in "fiu":
                out.fill(g if out.dtype.kind == "f" else int(abs(g)) % 100)
            return out

        return empty

    for name in ("empty", "empty_like"):
        REAL["np." + name] = getattr(np, name)
        setattr(np, name, make(getattr(np, name)))


def _wrap_ids(modules):
    for mod in modules:
        mod.id = IDS.of
        for o in list(vars(mod).values()):
            if isinstance(o, type) and o.__module__ == mod.__name__ and o.__hash__ is object.__hash__:
                o.__hash__ = lambda self: IDS.of(self)


def _wrap_solver(mod, attr, site):
    real = getattr(mod, attr)
    REAL[site] = real

    def solver(*args, **kwargs):
        s = SIM
        if not s.active:
            return real(*args, **kwargs)
        n = s.solver_calls.get(site, 0)
        s.solver_calls[site] = n + 1
        if s.solver_budget is not None and n >= s.solver_budget.get(site, n + 1):
            raise SimStuck("solver budget %s %d" % (site, n))
        if s.yield_hook is not None:
            s.yield_hook(site)
        if s.solver_observer is not None:
            s.solver_observer(site, args, kwargs)
        for f in s.solver_faults:
            if f["site"] != site:
                continue
            rep = f.get("repeat", 1)
            if n >= f["nth"] and (rep < 0 or n < f["nth"] + rep):
                s.fire("solver:" + f["exc"])
                s.note("fault", site, n, f["exc"])
                raise _exc(f["exc"])
        out = s.solver_stub.get(site, real)(*args, **kwargs)
        if s.solver_result_hook is not None:
            s.solver_result_hook(site, args, kwargs, out)
        return out

    solver.__name__ = attr
    solver.__wrapped_real__ = real
    setattr(mod, attr, solver)


def _wrap_clock():
    for name in ("time", "monotonic", "perf_counter"):
        real = getattr(time, name)
        REAL["time." + name] = real

        def make(name, real):
            def now():
                c = SIM.clock
                if c is None or not SIM.active:
                    return real()
                return c.time() if name == "time" else c.monotonic()

            now.__name__ = name
            return now

        setattr(time, name, make(name, real))


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True

    os.environ.setdefault("MPLBACKEND", "Agg")
    warnings.simplefilter("ignore")
    # The library attaches a StreamHandler only if the logger has none.
    for name in ("Calibrator", "plotting"):
        lg = logging.getLogger(name)
        lg.addHandler(logging.NullHandler())
        lg.propagate = False
    logging.raiseExceptions = False

    REAL["time"] = time.time
    from . import disk

    disk.install()
    _wrap_clock()

    import numpy as np
    import numpy.polynomial.chebyshev
    import numpy.polynomial.legendre
    import numpy.polynomial.polynomial

    disk.install_numpy(np)
    _wrap_random(np)
    _wrap_solver(np.polynomial.polynomial, "polyfit", "polyfit")
    _wrap_solver(np.polynomial.legendre, "legfit", "legfit")
    _wrap_solver(np.polynomial.chebyshev, "chebfit", "chebfit")
    _wrap_memory(np)
    _wrap_solver(np, "insert", "insert")
    _wrap_solver(np, "delete", "delete")

    import scipy.optimize

    _wrap_solver(scipy.optimize, "least_squares", "least_squares")
    _wrap_solver(scipy.optimize, "curve_fit", "curve_fit")
    _wrap_solver(scipy.optimize, "minimize", "minimize")

    import pynverse

    _wrap_solver(pynverse, "inversefunc", "inversefunc")

    import tqdm
    import tqdm.std

    tqdm.tqdm.monitor_interval = 0  # no real monitor thread
    tqdm.std.time = time.time

    if REPO_SRC not in sys.path:
        sys.path.insert(0, REPO_SRC)
    warnings.simplefilter("ignore")
    import rascal

    path = os.path.realpath(rascal.__file__)
    if not path.startswith(os.path.realpath(REPO_SRC) + os.sep):
        raise RuntimeError("rascal imported from %s" % path)
    import rascal.atlas
    import rascal.calibrator
    import rascal.houghtransform
    import rascal.models
    import rascal.plotting
    import rascal.synthetic
    import rascal.util

    _wrap_ids(
        [
            rascal.atlas, rascal.calibrator, rascal.houghtransform, rascal.models,
            rascal.plotting, rascal.synthetic, rascal.util,
        ]
    )

    # a scipy/numpy module imported above may have re-armed warnings
    warnings.resetwarnings()
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")


SRC_PREFIX = os.path.realpath(REPO_SRC) + os.sep + "rascal" + os.sep
