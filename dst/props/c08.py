"""C08: a saved Hough transform is complete or absent."""

import os

import numpy as np

from .. import sched
from ..core import Ctx, SIM, attempt, begin, end, values, digest, rng_state, Outcome, SimCrash
from ..disk import SimDisk, REAL as DREAL

FILES = ("a", "b")


def path_of(plan, f):
    return SIM.disk.path(plan["names"][FILES.index(f)])


PICK = ("a", "a", "a", "b")
FMTS = ["npy", "json", "npy", "json", "npy+json", "json+npy"]
KINDS = ["eio", "enospc", "short", "crash", "crash_after", "eacces", "emfile", "eio", "enospc", "crash"]


def gen_fault(rng, load=False):
    k = rng.choice(["eio", "short", "enoent", "eio", "crash", "eacces", "emfile"] if load else KINDS)
    return {
        "at": rng.randrange(0, 3 if load else 6) if rng.random() < 0.7 else rng.randrange(0, 40),
        "kind": k,
        "frac": round(rng.random(), 3),
        "repeat": rng.choice([1, 1, 1, 2, 5, -1]) if k != "crash" else 1,
    }


def gen_duel(rng):
    """Threads that save and load the same files."""
    n = rng.choice([2, 2, 3])
    jobs = []
    for i in range(n):
        steps = []
        for _ in range(rng.randint(1, 3)):
            if i == 0 or rng.random() < 0.7:
                steps.append({"op": "save", "fmt": rng.choice(FMTS)})
            else:
                steps.append({"op": "load", "fmt": rng.choice(["npy", "json"])})
        jobs.append({"k": rng.randrange(1000), "file": rng.choice(PICK), "steps": steps})
    faults = [dict(gen_fault(rng), kind=rng.choice(["eio", "enospc", "short", "eacces"]))] if rng.random() < 0.3 else []
    return {"jobs": jobs, "sched": sched.gen(rng, n, True), "faults": faults}


def gen(rng, tier):
    ops = [{"op": "make", "k": rng.randrange(1000)}]
    if rng.random() < 0.7:
        ops.append({"op": "save", "file": "a", "fmt": "npy+json", "delim": "+", "faults": [], "via": "ht", "reader": False})
    for _ in range(rng.randint(3, 9)):
        r = rng.random()
        if r < 0.12:
            ops.append({"op": "make", "k": rng.randrange(1000)})
        elif r < 0.18:
            ops.append({"op": "extend", "k": rng.randrange(1000)})
        elif r < 0.55:
            fs = [gen_fault(rng) for _ in range(rng.choice([0, 0, 1, 1, 1, 2]))]
            ops.append({
                "op": "save", "file": rng.choice(PICK), "fmt": rng.choice(FMTS),
                "delim": rng.choice(["+", "+", ",", "&&"]), "faults": fs,
                "via": rng.choice(["ht", "ht", "cal"]),
                "reader": rng.random() < 0.5,
            })
        elif r < 0.62:
            ops.append({"op": "memory", "fmt": rng.choice(FMTS), "file": rng.choice(PICK), "via": rng.choice(["ht", "cal"])})
        elif r < 0.72:
            ops.append({"op": "damage", "file": rng.choice(PICK), "fmt": rng.choice(["npy", "json"]), "frac": round(rng.random() ** rng.choice([1, 0.2]), 4)})
        else:
            fs = [gen_fault(rng, True) for _ in range(rng.choice([0, 0, 1, 1, 2]))]
            ops.append({
                "op": "load", "file": rng.choice(PICK), "fmt": rng.choice(["npy", "json"]),
                "faults": fs, "ext": rng.random() < 0.3, "fresh": rng.random() < 0.4,
                "via": rng.choice(["ht", "ht", "cal"]),
            })
    names = rng.choice([["a", "b"]] * 3 + [["scan", "scan.1"], ["run 1.5nm", "b.c"], [".h", "npy"]])
    duel = gen_duel(rng) if rng.random() < 0.15 else None
    if duel:
        ops = ops[:2]
    return {"duel": duel, "ops": ops, "names": names, "buf": rng.choice([64, 512, 8192]), "n": rng.randint(2, 6), "bins": [rng.randint(2, 9), rng.randint(2, 9)]}


def make_ht(plan, k):
    from rascal.houghtransform import HoughTransform

    r = np.random.RandomState(k)
    h = HoughTransform()
    n = plan["n"]
    lo = r.uniform(3000, 4000)
    h.set_constraints(0.5 + r.uniform(), 3.0 + r.uniform(), lo, lo + 700)
    x = np.sort(r.uniform(0, 400, n))
    h.generate_hough_points(x, lo + 300 + 2 * x + r.normal(0, 20, n), 5 + k % 20)
    h.bin_hough_points(plan["bins"][0], plan["bins"][1] + k % 3)
    return h


def snap(h):
    """What the transform is, as numbers."""
    d = {
        f: None if getattr(h, f) is None else np.asarray(getattr(h, f)).shape
        for f in ("hough_points", "hist", "xedges", "yedges")
    }
    for f in ("hough_points", "hist", "xedges", "yedges", "min_slope", "max_slope", "min_intercept", "max_intercept"):
        d["v_" + f] = values(getattr(h, f))
    d["lines"] = values(h.hough_lines)
    return digest(sorted(d.items(), key=lambda kv: kv[0]))


def plain(d):
    return digest(values(d))


class Host:
    """A transform, bare or inside a calibrator."""

    def __init__(self, h):
        self.h = h
        self.c = None

    def cal(self):
        if self.c is None:
            from rascal.calibrator import Calibrator

            self.c = Calibrator(np.array([10.0, 50.0, 90.0]))
            self.c.ht = self.h
        return self.c

    def save(self, via, **kw):
        if via == "cal":
            return self.cal().save_hough_transform(**kw)
        return self.h.save(**kw)

    def load(self, via, **kw):
        if via == "cal":
            return self.cal().load_hough_transform(**kw)
        return self.h.load(**kw)


def read_bytes(path):
    if not os.path.exists(path):
        return None
    with DREAL["open"](path, "rb") as f:
        return f.read()


def execute(plan):
    ctx = Ctx()
    begin(0)
    SIM.disk = SimDisk(bufsize=plan["buf"])
    try:
        _run(ctx, plan)
    finally:
        SIM.yield_hook = None
        end()
    return ctx


def quiet_load(path, fmt):
    """A reader in another process: no faults, not counted."""
    from rascal.houghtransform import HoughTransform

    d, SIM.disk = SIM.disk, None
    try:
        h = HoughTransform()
        out = attempt(lambda: h.load(path, filetype=fmt))
        return snap(h) if out.ok else None, out
    finally:
        SIM.disk = d


def _run(ctx, plan):
    from rascal.houghtransform import HoughTransform

    disk = SIM.disk
    writer = Host(make_ht(plan, 1))
    loader = Host(HoughTransform())
    model = {}  # path -> snapshot it must read back as ("damaged" / absent)
    for op in plan["ops"]:
        disk.arm([])
        k = op["op"]
        if k == "make":
            writer = Host(make_ht(plan, op["k"]))
        elif k == "extend":
            r = np.random.RandomState(op["k"])
            writer.h.add_hough_points(np.column_stack((r.uniform(1, 2, 4), r.uniform(3000, 4000, 4))))
        elif k == "save":
            writer = _save(ctx, plan, op, disk, writer, model)
        elif k == "memory":
            _memory(ctx, plan, op, disk, writer)
        elif k == "damage":
            path = path_of(plan, op["file"]) + "." + op["fmt"]
            data = read_bytes(path)
            if data:
                cut = min(int(op["frac"] * len(data)), len(data) - 1)
                with DREAL["open"](path, "wb") as f:
                    f.write(data[:cut])
                model[path] = "damaged"
                SIM.fire("disk:truncated")
        elif k == "load":
            loader = _load(ctx, plan, op, disk, loader, model)
        ctx.steps += disk.ops
        if ctx.violations:
            return
    if plan.get("duel"):
        _duel(ctx, plan, plan["duel"], disk)


class Job:
    """What one thread does with the files."""

    def __init__(self, plan, job):
        from rascal.houghtransform import HoughTransform

        self.plan, self.job = plan, job
        self.h = make_ht(plan, job["k"])
        self.reader = HoughTransform()
        self.outs = []

    def run(self):
        name = path_of(self.plan, self.job["file"])
        for s in self.job["steps"]:
            if s["op"] == "save":
                out = attempt(lambda: self.h.save(filename=name, fileformat=s["fmt"]))
                self.outs.append((s, out, snap(self.h)))
            else:
                out = attempt(lambda: self.reader.load(filename=name, filetype=s["fmt"]))
                self.outs.append((s, out, snap(self.reader)))


def _duel(ctx, plan, duel, disk):
    first = make_ht(plan, 3)
    for f in FILES:
        first.save(filename=path_of(plan, f), fileformat="npy+json")

    def jobs():
        return [Job(plan, j) for j in duel["jobs"]]

    def states():
        keep, out = np.random.get_state(), []
        for i in range(len(duel["jobs"])):
            rng_state(i + 1)
            out.append(np.random.get_state())
        np.random.set_state(keep)
        return out

    totals, places = [], []
    for j, st in zip(jobs(), states()):
        r = sched.Sched([j.run], [st], [], record=True)
        r.run()
        totals.append(r.tasks[0].events)
        places.append(r.tasks[0].places)
    for f in FILES:
        first.save(filename=path_of(plan, f), fileformat="npy+json")
    js = jobs()
    may = {f: {snap(first)} for f in FILES}
    for j in js:
        may[j.job["file"]].add(snap(j.h))
    disk.arm(duel["faults"])
    r = sched.Sched([j.run for j in js], states(), sched.segments(duel["sched"], totals, places))
    outs = r.run()
    fired = disk.failed
    disk.arm([])
    ctx.steps += r.switches
    ctx.nontrivial = ctx.nontrivial or r.switches > 1
    SIM.fire("preemption", r.switches)
    ctx.mark("duel", digest(r.trail))
    SIM.note("duel", digest(r.trail))
    for j, o in zip(js, outs):
        if not isinstance(o, Outcome) or not o.ok:
            raise RuntimeError("harness: %r" % (o,))
        for s, out, now in j.outs:
            ctx.mark(s["op"], s["fmt"], out.brief())
            if not ctx.check(
                out.ok or (fired and isinstance(out.exc, OSError)), "duel:%s:%s" % (s["op"], out.brief()),
                lambda: "while other threads used the same files, to %s as %s raised %r" % (s["op"], s["fmt"], out),
            ):
                return
            if s["op"] == "load" and out.ok:
                SIM.probe("duel-load")
                if not ctx.check(now in may[j.job["file"]], "duel:load:" + s["fmt"], "a load gave something that nobody saved"):
                    return
    for f in FILES:
        for e in ("npy", "json"):
            got = quiet_load(path_of(plan, f) + "." + e, e)[0]
            if not ctx.check(got in may[f], "duel:file:" + e, "in the end the file is not what anybody saved"):
                return
            saved = [j for j in js if j.job["file"] == f and any(s["op"] == "save" and e in s["fmt"] and o.ok for s, o, _ in j.outs)]
            if saved and got == snap(first) and not fired and all(snap(j.h) != got for j in saved):
                ctx.bad("duel:lost:" + e, "the saves returned, and the file is still the old one")
                return


def _memory(ctx, plan, op, disk, writer):
    before = [read_bytes(path_of(plan, f) + "." + e) for f in FILES for e in ("npy", "json")]
    names = sorted(os.listdir(disk.root))
    out = attempt(lambda: writer.save(op["via"], filename=path_of(plan, op["file"]), fileformat=op["fmt"], to_disk=False))
    after = [read_bytes(path_of(plan, f) + "." + e) for f in FILES for e in ("npy", "json")]
    ctx.check(
        disk.ops == 0 and before == after and names == sorted(os.listdir(disk.root)),
        "memory:touched-disk", "to_disk=False performed %d disk operations" % disk.ops,
    )
    if not ctx.check(out.ok, "memory:" + out.brief(), repr(out)):
        return
    want = op["fmt"].split("+")
    v = out.value
    if len(want) == 2:
        if not ctx.check(isinstance(v, tuple) and len(v) == 2, "memory:shape", repr(type(v))):
            return
        npy, js = v
    else:
        npy, js = (v, None) if want[0] == "npy" else (None, v)
    h = writer.h
    fields = ("hough_points", "hist", "xedges", "yedges", "min_slope", "max_slope", "min_intercept", "max_intercept")
    if npy is not None:
        got = [values(x) for x in list(npy)[:4]] + [values(x[0]) for x in list(npy)[4:]]
        ctx.check(got == [values(getattr(h, f)) for f in fields], "memory:npy", "not the transform")
    elif "npy" in want:
        ctx.bad("memory:nothing", "no value returned")
    if js is not None:
        ctx.check(
            [values(js.get(f)) for f in fields] == [values(getattr(h, f)) for f in fields],
            "memory:json", "not the transform",
        )
    elif "json" in want:
        ctx.bad("memory:nothing", "no value returned")
    ctx.mark("memory", op["fmt"])


def _save(ctx, plan, op, disk, writer, model):
    fmts = op["fmt"].split("+")
    paths = {e: path_of(plan, op["file"]) + "." + e for e in fmts}
    others = {
        path_of(plan, f) + "." + e: read_bytes(path_of(plan, f) + "." + e)
        for f in FILES for e in ("npy", "json")
    }
    old = {e: read_bytes(p) for e, p in paths.items()}
    want = snap(writer.h)
    seen = {e: old[e] for e in fmts}
    done = {e: False for e in fmts}

    def look(where):
        for e in fmts:
            b = read_bytes(paths[e])
            if b == seen[e]:
                continue
            seen[e] = b
            got = quiet_load(paths[e], e)[0] if b is not None else None
            if got == want:
                done[e] = True
            elif b != old[e]:
                ctx.bad(
                    "save:exposed:" + e,
                    "at %s the target is neither the old nor the new file (%s bytes)"
                    % (where, None if b is None else len(b)),
                )

    if op["reader"]:
        def hook(what):
            SIM.yield_hook = None
            look(what)
            SIM.yield_hook = hook

        SIM.yield_hook = hook
    disk.arm(op["faults"])
    out = attempt(
        lambda: writer.save(
            op["via"], filename=path_of(plan, op["file"]),
            fileformat=op["delim"].join(fmts), delimiter=op["delim"],
        )
    )
    SIM.yield_hook = None
    ops = disk.ops
    fired = disk.failed
    crashed = isinstance(out.exc, SimCrash)
    disk.arm([])
    look("the end (%s)" % out.brief())
    ctx.mark("save", op["fmt"], out.brief(), ops, tuple(done.values()))
    ctx.nontrivial = ctx.nontrivial or bool(fired) or crashed or op["reader"]
    for e in fmts:
        if out.ok:
            ctx.check(done[e] or (seen[e] is not None and quiet_load(paths[e], e)[0] == want),
                      "save:not-durable:" + e, "save returned, a load does not find it")
        now = read_bytes(paths[e])
        if now is None:
            model.pop(paths[e], None)
        elif now != old[e] or out.ok:
            got = quiet_load(paths[e], e)[0]
            model[paths[e]] = got or "damaged"
    for p, b in others.items():
        if p not in paths.values():
            ctx.check(read_bytes(p) == b, "save:other-file", "a save changed %s" % disk.name(p))
    if not out.ok:
        ctx.check(
            crashed or (isinstance(out.exc, OSError) and fired > 0),
            "save:crash:" + out.brief(), repr(out),
        )
        SIM.probe("save-failed")
        if crashed:
            SIM.probe("save-crashed")
            return Host(make_ht(plan, 7))
        ctx.check(snap(writer.h) == want, "save:changed-object", "a failed save changed the transform")
    else:
        ctx.check(fired == 0, "save:error-hidden", "a disk error was swallowed")
        ctx.check(snap(writer.h) == want, "save:changed-object", "a save changed the transform")
    return writer


def _load(ctx, plan, op, disk, loader, model):
    from rascal.houghtransform import HoughTransform

    path = path_of(plan, op["file"]) + "." + op["fmt"]
    name = path if op["ext"] else path_of(plan, op["file"])
    if op["fresh"]:
        loader = Host(HoughTransform())
    before = snap(loader.h)
    cal = loader.cal() if op["via"] == "cal" else None
    state = values([cal.hough_lines, cal.hough_points]) if cal else None
    want = model.get(path)
    disk.arm(op["faults"])
    out = attempt(lambda: loader.load(op["via"], filename=name, filetype=op["fmt"]))
    fired = disk.failed
    ops = disk.ops
    disk.arm([])
    after = snap(loader.h)
    ctx.mark("load", op["fmt"], out.brief(), ops, want is None, want == "damaged")
    if out.ok:
        if fired:
            SIM.probe("load-ok-despite-error")
        if not ctx.check(want not in (None, "damaged"), "load:garbage", "a load of %s succeeded" % (want or "a missing file")):
            return loader
        ctx.nontrivial = True
        ctx.check(after == want, "load:different:" + op["fmt"], "what was read is not what was saved")
        # what was loaded can be binned again
        r = HoughTransform()
        r.hough_points = loader.h.hough_points
        hist = np.asarray(loader.h.hist)
        b = attempt(lambda: r.bin_hough_points(*hist.shape))
        ctx.check(b.ok, "load:unusable:" + op["fmt"], "re-binning after loading: %r" % b)
        if cal is not None:
            ctx.check(
                values(cal.hough_lines) == values(loader.h.hough_lines)
                and values(cal.hough_points) == values(loader.h.hough_points),
                "load:calibrator", "the calibrator does not hold what it loaded",
            )
    else:
        if isinstance(out.exc, SimCrash):
            SIM.probe("load-crashed")
            return Host(HoughTransform())
        SIM.probe("load-failed")
        ctx.check(after == before, "load:partial:" + op["fmt"], "a failed load (%s) changed the object" % out.brief())
        if cal is not None:
            ctx.check(values([cal.hough_lines, cal.hough_points]) == state, "load:partial-calibrator", "a failed load changed the calibrator")
        ctx.check(
            fired > 0 or want in (None, "damaged"),
            "load:refused:" + op["fmt"], "a good file was refused: %r" % out,
        )
        if want is None:
            ctx.check(isinstance(out.exc, OSError), "load:missing", repr(out))
    return loader
