"""C05: calibrators working concurrently do not disturb each other."""

import copy
import hashlib

import numpy as np

from .. import sched, script as S, world as W
from ..core import Ctx, SIM, attempt, begin, bounded, digest, end, rng_state, values, Outcome
from ..disk import SimDisk
from ..seams import REAL

FORK = True  # each run in a process of its own: nothing global survives it


def gen_ops(rng, w, shared, light):
    ops = []
    for _ in range(rng.randint(2, 6)):
        r = rng.random()
        if light:  # nothing that takes many lines: every line can be a switch
            r = 0.55 + 0.45 * r
        if r < 0.3:
            f = S.g_fit(rng, w)
            f["seed"] = None
            if "fit_coeff" not in f["over"] and rng.random() < 0.3:
                f["over"]["fit_type"] = rng.choice(["poly", "legendre", "chebyshev"])
            ops.append(f)
        elif r < 0.4:
            ops.append(S.g_match(rng, w))
        elif r < 0.48:
            ops.append(S.g_refit(rng, w))
        elif r < 0.55:
            ops.append(S.g_pair(rng, w))
        elif r < 0.62:
            ops.append({"op": "transform", "brute": rng.random() < 0.3})
        elif r < 0.7:
            ops.append(rng.choice([S.g_hough, S.g_ransac])(rng, w))
        elif r < 0.76:
            ops.append(S.g_known(rng, w))
        elif r < 0.84:
            fmt = rng.choice(["npy", "json"])
            ops += [{"op": "transform"}, {"op": "save", "fmt": fmt, "file": "h"}, {"op": "load", "fmt": fmt, "file": "h"}]
        elif r < 0.9:
            ops.append({"op": "lines", "k": rng.randrange(1 << 20)})
        elif r < 0.95:
            ops.append({"op": "refine", "k": rng.randrange(1 << 20)})
        elif not shared:
            ops.append(S.g_atlas(rng, w))
    if not light and not any(o["op"] == "fit" for o in ops) and rng.random() < 0.8:
        f = S.g_fit(rng, w)
        f["seed"] = None
        ops.insert(rng.randrange(len(ops) + 1), f)
    return ops


def small(rng):
    w = S.gen_small(rng)
    if rng.random() < 0.6:
        S.easy(w, rng)
    return w


def gen(rng, tier):
    base = small(rng)
    n = rng.choice([2, 2, 2, 3])
    shared = rng.random() < 0.5
    light = rng.random() < 0.35
    common = rng.random() < 0.4
    tasks = []
    for i in range(n):
        w = copy.deepcopy(base)
        same = shared or rng.random() < 0.3
        if not same:
            w = small(rng)
        elif rng.random() < 0.5:
            w["hough"].update(S.g_hough(rng, w)["args"])
            w["ransac"].update(S.g_ransac(rng, w)["args"])
        ops = gen_ops(rng, w, shared, light)
        if common:  # files of their own, whose names differ only a little
            for o in ops:
                if o["op"] in ("save", "load"):
                    o["fmt"] = ["npy", "json", "npy"][i]
                    o["file"] = ["h", "h", "h.2"][i]
        tasks.append({"world": w, "ops": ops, "seed": rng.randrange(1 << 30)})
    return {"tasks": tasks, "shared": shared, "sched": sched.gen(rng, n, light), "build": rng.random() < 0.3, "common": common}


def execute(plan):
    ctx = Ctx()
    if not all(W.valid(t["world"]) for t in plan["tasks"]):
        return ctx
    begin(0)
    SIM.disk = SimDisk()
    SIM.disk.op_log = False
    try:
        _run(ctx, plan)
    finally:
        end()
    return ctx


def do(env, op):
    if op["op"] == "lines":
        # an atlas of one's own, from a line list on disk
        from rascal.atlas import Atlas

        r = REAL["RandomState"](op["k"])
        path = env.file("list%d.csv" % op["k"])
        with open(path, "w") as f:
            for _ in range(r.randint(3, 12)):
                f.write("%s,%.3f,%d\n" % (["Xe", "Hg"][r.randint(2)], r.uniform(3900, 6000), r.randint(5, 500)))
        a = Atlas("Xe", min_atlas_wavelength=4000, max_atlas_wavelength=5500, range_tolerance=50, linelist=path, min_distance=0)
        a.add("Hg", linelist=path, min_distance=1.0, vacuum=True)
        return [a.get_lines(), a.get_elements(), a.get_intensities()]
    if op["op"] == "refine":
        from rascal.util import refine_peaks

        return refine_peaks(S.make_spectrum(env.w), W.np_peaks(env.w), window_width=5)
    return S.do(env, op)


class Job:
    """One task: its own environment, or parts of it shared with the others."""

    def __init__(self, ctx, task, tag, atlas=None, peaks=None, build=False):
        self.ctx = ctx
        self.task, self.tag, self.atlas, self.peaks = task, tag, atlas, peaks
        self.env = None
        if not build:
            self.make()
        self.trail = []

    def make(self):
        w = self.task["world"]
        self.env = S.Env.__new__(S.Env)
        self.env.w, self.env.tag, self.env.rng = w, self.tag, rng_state
        a = self.atlas or W.make_atlas(w)
        self.env.atlas = {"a": a}
        self.env.spectrum = None
        self.env.peaks = self.peaks if self.peaks is not None else W.np_peaks(w)
        from rascal.calibrator import Calibrator

        c = self.env.c = Calibrator(self.env.peaks)
        c.set_calibrator_properties(**W.cal_args(w))
        c.set_hough_properties(**w["hough"])
        c.set_ransac_properties(**w["ransac"])
        c.set_atlas(a, **w["atlas"])

    def run(self):
        if self.env is None:
            self.make()
        for op in self.task["ops"]:
            out = bounded(self.ctx, lambda: do(self.env, op), draws=600, solves=25)
            if out is None:
                # given up: whatever state that left is no longer of interest
                self.trail.append((op["op"], "stuck", "", {}))
                return None
            what = values(out.value) if op["op"] in ("fit", "match", "refit", "pairs", "lines", "refine") else None
            self.trail.append((op["op"], out.brief(), digest(what), S.state(self.env.c)))
        return None


def seed_state(seed):
    keep = np.random.get_state()
    rng_state(seed)
    s = np.random.get_state()
    np.random.set_state(keep)
    return s


def shared_parts(plan):
    if not plan["shared"]:
        return [(None, None)] * len(plan["tasks"])
    w = plan["tasks"][0]["world"]
    return [(W.make_atlas(w), W.np_peaks(w))] * len(plan["tasks"])


def solo(ctx, plan, i):
    task = plan["tasks"][i]
    parts = shared_parts(plan)[i]
    # alone, but through the same scheduler: the same tracing, no other task
    job = Job(ctx, task, "c" if plan.get("common") else "s%d" % i, *parts, build=plan["build"])
    s = sched.Sched([job.run], [seed_state(task["seed"])], [], record=plan["sched"]["mode"] in ("place", "meet"))
    out = s.run()[0]
    if not isinstance(out, Outcome) or not out.ok:
        raise RuntimeError("harness: %r" % (out,))
    return job.trail, s.tasks[0].events, s.tasks[0].places


def _run(ctx, plan):
    n = len(plan["tasks"])
    alone = []
    for i in range(n):
        alone.append(solo(ctx, plan, i))
    again = solo(ctx, plan, 0)
    if not same(ctx, "alone-again", alone[0][0], again[0], 0):
        return
    totals = [r[1] for r in alone]
    parts = shared_parts(plan)
    before = [(S.atlas_state(a), values(p)) for a, p in parts]
    jobs = [Job(ctx, t, "c" if plan.get("common") else "t%d" % i, *parts[i], build=plan["build"]) for i, t in enumerate(plan["tasks"])]
    s = sched.Sched([j.run for j in jobs], [seed_state(t["seed"]) for t in plan["tasks"]], sched.segments(plan["sched"], totals, [r[2] for r in alone]))
    outs = s.run()
    ctx.steps += s.switches
    ctx.nontrivial = s.switches > 0
    SIM.probe("switches", s.switches)
    for name in set(x.split("@")[1] for x in s.trail):
        SIM.probe("switched-in:" + name)
    SIM.fire("preemption", s.switches)
    h = hashlib.sha1("|".join(s.trail).encode()).hexdigest()[:16]
    SIM.note("interleaving", h, s.switches)
    ctx.mark(h)
    for i, (job, out) in enumerate(zip(jobs, outs)):
        ok = isinstance(out, Outcome) and out.ok
        if not ctx.check(ok, "did-not-end", "task %d: %r" % (i, out)):
            return
        if not same(ctx, "concurrent", alone[i][0], job.trail, i):
            return
        SIM.note(digest(job.trail))
    ctx.check(
        before == [(S.atlas_state(a), values(p)) for a, p in parts], "shared-changed",
        "the shared atlas or peaks were changed",
    )


def same(ctx, tag, want, got, i):
    if not ctx.check(got is not None and len(got) == len(want), tag + ":length", "task %d did not finish" % i):
        return False
    for k, (a, b) in enumerate(zip(want, got)):
        d = S.diff(a[3], b[3])
        if not ctx.check(
            a[:3] == b[:3] and not d, "%s:%s" % (tag, a[0]),
            "task %d, operation %d (%s): alone %s %s, with others %s %s; state differs in %s" % (i, k, a[0], a[1], a[2], b[1], b[2], d[:6]),
        ):
            return False
    return True
