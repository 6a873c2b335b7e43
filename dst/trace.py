"""Line-level interruption and step counting, by sys.settrace.

Only lines of rascal's own source count as events, so an interruption point is
"before the k-th executed line of the library".  Points are chosen relative to a
reference execution of the same operation (see resolve()).
"""

import dis
import sys

from . import seams
from .seams import SIM, SRC_PREFIX, SimCrash, SimStuck


_setters = {}


def setters(code):
    if code not in _setters:
        lines, line = set(), None
        for i in dis.get_instructions(code):
            if i.starts_line is not None:
                line = i.starts_line
            if i.opname in ("STORE_ATTR", "STORE_SUBSCR"):
                lines.add(line)
        _setters[code] = lines
    return _setters[code]


class Tracer:
    def __init__(self, at=None, exc=None, budget=None, record=False):
        self.n = 0
        self.at = at
        self.exc = exc
        self.budget = budget
        self.fired = None
        self.first = {} if record else None
        self.last = {}
        self.occ = {}
        self.stores = {}  # line that set an attribute -> the events just after it
        self.at_line = {}  # frame -> line last begun
        self.stored = None

    def _local(self, frame, event, arg):
        if event == "line":
            n = self.n
            self.n = n + 1
            if self.first is not None:
                key = (frame.f_code.co_filename, frame.f_lineno)
                if key not in self.first:
                    self.first[key] = n
                    self.occ[key] = []
                self.last[key] = n
                o = self.occ[key]
                if len(o) < 64:
                    o.append(n)
                self._after(frame)
                if self.stored is not None:
                    s = self.stores.setdefault(self.stored, [])
                    if len(s) < 64:
                        s.append(n)
                    self.stored = None
                self.at_line[frame] = frame.f_lineno
            # Not while another failure is being handled: a second fault on top
            # of the first is more than the properties promise to survive.
            if self.at is not None and n >= self.at and sys.exc_info()[0] is None:
                self.at = None
                self.fired = (
                    frame.f_code.co_filename.rsplit("/", 1)[-1],
                    frame.f_code.co_name,
                )
                SIM.fire("interrupt:" + self.exc)
                SIM.note("interrupt", self.exc, n, *self.fired)
                raise make_exc(self.exc)
            if self.budget is not None and n >= self.budget:
                raise SimStuck("line budget %d" % self.budget)
        elif event == "return" and self.first is not None:
            self._after(frame)
            self.at_line.pop(frame, None)
        return self._local

    def _after(self, frame):
        """Has the line this frame was at set an attribute of some object?"""
        line = self.at_line.pop(frame, None)
        if line is not None and line in setters(frame.f_code):
            self.stored = (frame.f_code.co_filename, line)

    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(SRC_PREFIX):
            return self._local
        return None

    def run(self, fn):
        old = sys.gettrace()
        sys.settrace(self._global)
        try:
            return fn()
        finally:
            sys.settrace(old)


def make_exc(name):
    if name == "KeyboardInterrupt":
        return KeyboardInterrupt("simulated")
    if name == "SimCrash":
        return SimCrash()
    return seams._exc(name)


def reference(fn):
    """Run fn uninterrupted, recording where it went."""
    t = Tracer(record=True)
    out = t.run(fn)
    return out, t


def resolve(pos, ref):
    """Turn a position of a plan into an event index of the reference run.

    pos = {"how": "frac", "v": 0..1}
        | {"how": "end", "v": k}         k-th line from the end
        | {"how": "start", "v": k}
        | {"how": "loc", "v": 0..1, "o": 0..1}   v picks a distinct executed
              location, o one of its executions
        | {"how": "store", ...}  the same, just after a line that set an
              attribute or an item
    """
    if ref.n == 0:
        return None
    how = pos["how"]
    if how == "frac":
        return min(int(pos["v"] * ref.n), ref.n - 1)
    if how == "end":
        return max(ref.n - 1 - int(pos["v"]), 0)
    if how == "start":
        return min(int(pos["v"]), ref.n - 1)
    where = ref.stores if how == "store" and ref.stores else ref.occ
    keys = list(where)
    key = keys[min(int(pos["v"] * len(keys)), len(keys) - 1)]
    occ = where[key]
    o = pos.get("o", 0.0)
    if o >= 0.9:
        return occ[-1] if where is ref.stores else ref.last[key]
    return occ[min(int(o / 0.9 * len(occ)), len(occ) - 1)]


def gen_pos(rng):
    r = rng.random()
    if r < 0.3:
        return {"how": "store", "v": round(rng.random(), 4), "o": rng.choice([0.0, 0.0, 1.0, round(rng.random(), 3)])}
    if r < 0.6:
        return {"how": "loc", "v": round(rng.random(), 4), "o": rng.choice([0.0, 0.0, 1.0, round(rng.random(), 3)])}
    if r < 0.7:
        return {"how": "end", "v": rng.randrange(0, 40)}
    if r < 0.78:
        return {"how": "start", "v": rng.randrange(0, 60)}
    return {"how": "frac", "v": round(rng.random(), 5)}
