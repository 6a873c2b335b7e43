"""A deterministic scheduler for threads that run the real library.

Every task is a real thread, but exactly one holds the baton; it is handed over
only at yield points - every line of rascal's source, every random draw, solver
call and disk operation - and only when the plan says so.  Each task has its own
random stream: the state of the global generator is swapped at every switch.
"""

import sys
import threading

from .seams import SIM, SRC_PREFIX
from .core import attempt


class Task:
    def __init__(self, i, fn, state):
        self.i = i
        self.fn = fn
        self.state = state  # numpy generator state
        self.sim = (0, {}, None, None)
        self.sem = threading.Semaphore(0)
        self.done = False
        self.out = None
        self.events = 0
        self.places = {}  # line or seam -> the first events there


class Sched:
    LIMIT = 200  # real seconds; only a bug of the harness gets there

    def __init__(self, fns, states, segments, record=False):
        """segments: iterator of (task, number of events)."""
        self.record = record
        self.tasks = [Task(i, f, s) for i, (f, s) in enumerate(zip(fns, states))]
        self.segments = iter(segments)
        self.quota = 0
        self.cur = None
        self.switches = 0
        self.trail = []
        self.main = threading.Semaphore(0)
        self.error = None
        self.stopping = False

    # -- run ----------------------------------------------------------------
    def run(self):
        import numpy as np

        self.np = np
        threads = [threading.Thread(target=self._thread, args=(t,), daemon=True) for t in self.tasks]
        for th in threads:
            th.start()
        SIM.yield_hook = self._seam
        try:
            self._hand_over(None)
            if not self.main.acquire(timeout=self.LIMIT):
                self.error = "scheduler: no progress"
        finally:
            SIM.yield_hook = None
            self.stopping = True
        if self.error:
            raise RuntimeError(self.error)
        for th in threads:
            th.join(10)
        return [t.out for t in self.tasks]

    def _thread(self, t):
        t.sem.acquire()
        self._restore(t)
        sys.settrace(self._global)
        try:
            t.out = attempt(t.fn)
        except BaseException as e:
            t.out = e
        finally:
            sys.settrace(None)
            t.done = True
            self._save(t)
            self._hand_over(t)

    # -- what belongs to a task: its random stream, and the simulator's budgets
    def _save(self, t):
        t.state = self.np.random.get_state()
        t.sim = (SIM.draws, SIM.solver_calls, SIM.draw_budget, SIM.solver_budget)

    def _restore(self, t):
        self.np.random.set_state(t.state)
        SIM.draws, SIM.solver_calls, SIM.draw_budget, SIM.solver_budget = t.sim

    # -- yield points ----------------------------------------------------------
    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(SRC_PREFIX):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line":
            self._tick(frame.f_code.co_name, frame.f_lineno)
        return self._local

    def _seam(self, what):
        if threading.current_thread() is not threading.main_thread():
            self._tick(what)

    def _tick(self, where, line=0):
        t = self.cur
        t.events += 1
        if self.record:
            p = t.places.setdefault((where, line), [])
            if len(p) < 8:
                p.append(t.events)
        self.quota -= 1
        if self.quota <= 0:
            self._switch(t, where)

    def _next(self):
        """The next segment of a task that is not finished."""
        for i, n in self.segments:
            t = self.tasks[i % len(self.tasks)]
            if not t.done:
                return t, max(1, n)
        for t in self.tasks:
            if not t.done:
                return t, 1 << 60
        return None, 0

    def _switch(self, t, where):
        nxt, self.quota = self._next()
        if nxt is t:
            return
        self.switches += 1
        if len(self.trail) < 4000:
            self.trail.append("%d@%s" % (t.i, where))
        self._save(t)
        self.cur = nxt
        nxt.sem.release()
        t.sem.acquire()
        self._restore(t)

    def _hand_over(self, t):
        nxt, self.quota = self._next()
        if nxt is None:
            self.main.release()
            return
        self.cur = nxt
        nxt.sem.release()


def segments(plan, totals, places=()):
    """plan = {"mode": "frac", "seg": [[task, fraction]...]}
            | {"mode": "fine", "pattern": [[task, n]...], "times": k}
            | {"mode": "place", "seg": [[task, which place, which visit]...]}

    The last runs a task up to a line chosen among all the different lines it
    visits when alone, so that one visited once is as likely as one in a loop.

            | {"mode": "meet", "tasks": [a, b], "at": [[which function, visit]...], "pattern": [n, m], "times": k}

    runs two tasks up to the same function, then both through it in small steps."""
    if plan["mode"] == "meet":
        ts = [t % len(totals) for t in plan["tasks"]]
        if len(set(ts)) < 2:
            return
        into = []
        for t in ts:
            d = {}
            for (where, _), v in places[t].items():
                if where not in d or v[0] < d[where][0]:
                    d[where] = v
            into.append(d)
        names = sorted(set(into[0]) & set(into[1]))
        if not names:
            return
        goals = []
        for f, visit in plan["at"]:
            name = names[int(f * len(names))]
            goals.append([d[name][visit % len(d[name])] for d in into])
        at = [0, 0]
        for goal in sorted(goals):
            for i in (0, 1):
                if goal[i] > at[i]:
                    yield ts[i], goal[i] - at[i]
                    at[i] = goal[i]
            for _ in range(plan["times"]):
                for i in (0, 1):
                    yield ts[i], plan["pattern"][i]
                    at[i] += plan["pattern"][i]
        return
    if plan["mode"] == "place":
        at = [0] * len(totals)
        for t, f, visit in plan["seg"]:
            t %= len(totals)
            if f >= 1:
                n = totals[t] + 1
            else:
                v = [x for _, x in sorted(places[t].items())]
                v = [x for x in v if x[0] > at[t]] if f < 0 else v
                if not v:
                    continue
                occ = v[int(abs(f) * len(v))]
                n = occ[visit % len(occ)]
            if n > at[t]:
                yield t, n - at[t]
                at[t] = n
    elif plan["mode"] == "frac":
        for t, f in plan["seg"]:
            yield t, max(1, int(f * totals[t % len(totals)]))
    else:
        for _ in range(plan["times"]):
            for t, n in plan["pattern"]:
                yield t, n


def gen(rng, ntasks, light=False):
    r = rng.random()
    if r < 0.35:
        return {
            "mode": "meet", "tasks": rng.sample(range(ntasks), 2), "at": [[round(rng.random(), 4), rng.choice([0, 0, 0, 1, 2, 7])] for _ in range(rng.randint(1, 12))],
            "pattern": [rng.choice([1, 1, 1, 2, 3]), rng.choice([1, 1, 1, 2, 3])], "times": rng.choice([10, 30, 100]),
        }
    if r < 0.55:
        seg = []
        for _ in range(rng.randint(1, 6)):
            f = rng.random()
            # further on than it is now, anywhere, or to its end
            seg.append([rng.randrange(ntasks), round(-f if rng.random() < 0.7 else f, 4) if rng.random() < 0.85 else 1, rng.choice([0, 0, 0, 1, 2, 5])])
        return {"mode": "place", "seg": seg}
    r = rng.random() * (0.25 if light else 1) + (0.6 if light and rng.random() < 0.8 else 0)
    if r < 0.6:
        k = rng.randint(2, 12)
        small = rng.random() < 0.3
        return {"mode": "frac", "seg": [[rng.randrange(ntasks), round(rng.random() * (0.02 if small else 0.5), 4)] for _ in range(k)]}
    if light:
        pattern = [[i, rng.choice([1, 1, 1, 2, 3, 5, 9])] for i in range(ntasks)] * rng.randint(1, 3)
        return {"mode": "fine", "pattern": pattern, "times": 100000}
    pattern = [[rng.randrange(ntasks), rng.choice([1, 1, 2, 3, 5, 17, 60, 400])] for _ in range(rng.randint(2, 6))]
    return {"mode": "fine", "pattern": pattern, "times": rng.choice([3, 20, 200, 1000])}
