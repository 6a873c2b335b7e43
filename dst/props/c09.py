"""C09: calibration resumed from a saved transform continues as if never interrupted."""

import copy
import hashlib

from .. import world as W
from ..core import Ctx, SIM, attempt, begin, end, rng_state, values, digest, bounded, SimCrash, Quiet
from ..disk import SimDisk
from .c08 import gen_fault


def small_world(rng, **kw):
    w = W.gen_world(rng, kind=rng.choice(["clean", "clean", "noisy"]), deg=rng.choice([1, 2, 2, 3]), n=rng.randint(6, 10), **kw)
    w["fit"]["max_tries"] = rng.choice([2, 4, 6])
    w["fit"]["candidate_tolerance"] = rng.choice([6.0, 10.0, 14.0])
    w["ransac"]["minimum_fit_error"] = 0.0
    w["ransac"].pop("minimum_peak_utilisation", None)
    if w["ransac"].get("minimum_matches", 0) > 4:
        w["ransac"]["minimum_matches"] = 4
    w["hough"]["num_slopes"] = rng.choice([40, 60, 120])
    w["hough"]["xbins"] = rng.choice([8, 12, 20])
    w["hough"]["ybins"] = rng.choice([8, 12, 20])
    return w


def gen(rng, tier):
    w = small_world(rng)
    variants = [
        {},
        {"num_slopes": rng.choice([30, 50, 90]), "xbins": rng.choice([6, 10, 15])},
        {"ybins": rng.choice([7, 11, 16])},
    ]
    ops = [{"op": "restart", "v": rng.randrange(3)}]
    saved = rng.choice([["npy"], ["json"], ["npy", "json"], ["npy", "json"]])
    fmts = saved * 4 + ["npy", "json"]
    for _ in range(rng.randint(3, 8)):
        r = rng.random()
        if r < 0.16:
            ops.append({"op": "restart", "v": rng.randrange(3)})
        elif r < 0.26:
            ops.append({"op": "transform"})
        elif r < 0.6:
            fs = [gen_fault(rng, True) for _ in range(rng.choice([0, 0, 1, 1, 2]))]
            ops.append({"op": "load", "fmt": rng.choice(fmts), "file": rng.choice(["o"] * 8 + ["r", "missing"]), "faults": fs, "retry": rng.random() < 0.7})
        elif r < 0.72:
            fs = [gen_fault(rng) for _ in range(rng.choice([0, 1, 1]))]
            ops.append({"op": "resave", "fmt": rng.choice(fmts), "faults": fs, "retry": rng.random() < 0.7})
        else:
            ops.append({"op": "fit", "seed": rng.randrange(1 << 30)})
    if rng.random() < 0.7:
        ops.append({"op": "load", "fmt": rng.choice(saved), "file": "o", "faults": [gen_fault(rng, True)] if rng.random() < 0.5 else [], "retry": True})
    ops.append({"op": "fit", "seed": rng.randrange(1 << 30)})
    first = [gen_fault(rng) for _ in range(rng.choice([0, 0, 1, 1, 2]))]
    return {
        "world": w, "variants": variants, "ops": ops, "first": first,
        "fmts": saved,
        "brute": rng.random() < 0.15,
        "known": rng.random() < 0.15,
    }


def execute(plan):
    ctx = Ctx()
    w = plan["world"]
    if not W.valid(w):
        return ctx
    begin(0)
    SIM.disk = SimDisk(bufsize=512)
    try:
        _run(ctx, plan, w)
    finally:
        end()
    return ctx


def build(plan, v):
    w = copy.deepcopy(plan["world"])
    w["hough"].update(plan["variants"][v])
    c = W.make_calibrator(w)
    if plan["known"] and w["pairs"]:
        c.set_known_pairs([w["pairs"][0][0]], [w["pairs"][0][1]])
    return c


def fit(ctx, plan, c, seed):
    """(outcome or None if it ran out of budget, digest of everything drawn)"""
    rng_state(seed)
    seen = hashlib.sha1()
    SIM.choice_observer = lambda a, k, out: seen.update(repr(values([out])).encode())
    try:
        with Quiet():
            out = bounded(ctx, lambda: c.fit(**W.fit_args(plan["world"])), draws=1500, solves=60)
    finally:
        SIM.choice_observer = None
    return out, seen.hexdigest()


def _run(ctx, plan, w):
    disk = SIM.disk
    SIM.disk.op_log = False
    cache = {}

    def expected(holds, seed):
        key = (holds, seed)
        if key not in cache:
            SIM.disk, d = None, SIM.disk
            try:
                c = build(plan, holds[1])
                c.do_hough_transform(brute_force=holds[0] == "brute")
                out, drawn = fit(ctx, plan, c, seed)
                cache[key] = drawn, None if out is None else (out.brief(), values(out.value))
            finally:
                SIM.disk = d
        return cache[key]

    # the original: transform, save; a process death means doing it again
    orig = ("brute" if plan["brute"] else "plain", 0)
    faults = list(plan["first"])
    for attempt_no in range(len(faults) + 2):
        a = build(plan, 0)
        if attempt(lambda: a.do_hough_transform(brute_force=plan["brute"])).ok is False:
            return
        disk.arm(faults[attempt_no : attempt_no + 1])
        out = attempt(lambda: a.save_hough_transform(filename=disk.path("o"), fileformat="+".join(plan["fmts"])))
        disk.arm([])
        if out.ok:
            break
    if not ctx.check(out.ok, "save:" + out.brief(), "saving without faults: %r" % out):
        return
    files = {("o", f): orig for f in plan["fmts"]}
    c, holds = None, None
    loaded = False
    for op in plan["ops"]:
        k = op["op"]
        if k == "restart" or c is None:
            v = op.get("v", 0)
            c, holds, loaded = build(plan, v), None, False
            var = v
        elif k == "transform":
            c.do_hough_transform()
            holds, loaded = ("plain", var), False
        elif k == "load":
            for faults in ([op["faults"], []] if op["retry"] else [op["faults"]]):
                disk.arm(faults)
                out = attempt(lambda: c.load_hough_transform(filename=disk.path(op["file"]), filetype=op["fmt"]))
                failed = disk.failed
                disk.arm([])
                ctx.mark("load", op["fmt"], out.brief())
                if out.ok or isinstance(out.exc, SimCrash):
                    break
            have = files.get((op["file"], op["fmt"]))
            if out.ok:
                if not ctx.check(have is not None, "load:nothing", "loaded a file that was not saved"):
                    return
                holds, loaded = have, True
                SIM.probe("loaded")
            elif isinstance(out.exc, SimCrash):
                c, holds, loaded = build(plan, var), None, False
                SIM.probe("died-while-loading")
            else:
                SIM.probe("load-failed")
                if not ctx.check(have is None or failed, "load:refused", repr(out)):
                    return
        elif k == "resave":
            if holds is None:
                continue
            for faults in ([op["faults"], []] if op["retry"] else [op["faults"]]):
                disk.arm(faults)
                out = attempt(lambda: c.save_hough_transform(filename=disk.path("r"), fileformat=op["fmt"]))
                disk.arm([])
                if out.ok:
                    files[("r", op["fmt"])] = holds
                    break
                if isinstance(out.exc, SimCrash):
                    # either version may be there: ask, in a fresh process
                    files.pop(("r", op["fmt"]), None)
                    try:
                        DR(disk.path("r") + "." + op["fmt"])
                    except OSError:
                        pass
                    c, holds, loaded = build(plan, var), None, False
                    break
        elif k == "fit":
            h = holds or ("plain", var)
            drawn_want, want = expected(h, op["seed"])
            SIM.disk = None
            try:
                out, drawn = fit(ctx, plan, c, op["seed"])
            finally:
                SIM.disk = disk
            if holds is None:
                holds = h
            ctx.check((want is None) == (out is None), "fit:differs", "one of two fits with the same draws did not end")
            ctx.check(drawn == drawn_want, "fit:drawn", "the two fits did not draw the same samples from the same random stream")
            if ctx.violations:
                return
            if out is None:
                # budget ran out part-way: the object is discarded
                c, holds, loaded = build(plan, var), None, False
                continue
            got = (out.brief(), values(out.value))
            ctx.mark("fit", out.brief(), loaded, digest(got))
            SIM.note("fit", loaded, digest(got))
            if loaded:
                ctx.nontrivial = True
                SIM.probe("fit-from-loaded")
            if not ctx.check(
                got == want,
                "fit:differs:" + ("loaded" if loaded else "own"),
                lambda: "from the %s transform: %s, from the original: %s"
                % ("loaded" if loaded else "own", brief(got), brief(want)),
            ):
                return
        ctx.steps += disk.ops


def DR(path):
    import os

    from ..disk import REAL

    if os.path.exists(path):
        REAL["os.remove"](path)


def brief(g):
    if g[0] != "ok":
        return g[0]
    return "%d pairs, rms %s" % (len(g[1][1]), float.fromhex(g[1][3]))
