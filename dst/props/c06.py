"""C06: an interrupted operation can simply be issued again."""

import copy
import os

from .. import script as S, trace, world as W
from ..core import Ctx, SIM, attempt, begin, bounded, digest, end, values, Quiet, SimCrash
from ..disk import SimDisk, REAL
from .c08 import gen_fault

EXC = ["KeyboardInterrupt"] * 4 + ["MemoryError"]
# completing these twice is the same as once
TWICE = ("cal", "hough", "ransac", "set_atlas", "transform", "fit", "save", "load", "known", "match", "refit", "ht_bin")


def gen_target(rng, w):
    r = rng.random()
    if r < 0.28:
        return S.g_fit(rng, w)
    if r < 0.38:
        return S.g_match(rng, w)
    if r < 0.48:
        return S.g_refit(rng, w)
    if r < 0.58:
        return {"op": "transform", "brute": rng.random() < 0.3}
    if r < 0.64:
        return S.g_hough(rng, w)
    if r < 0.69:
        return S.g_ransac(rng, w)
    if r < 0.74:
        op = S.g_cal(rng, w)
        if rng.random() < 0.3:
            op["args"]["seed"] = rng.randrange(1 << 30)
        return op
    if r < 0.8:
        return {"op": "set_atlas", "which": rng.choice("ab"), "args": {"candidate_tolerance": rng.choice([5.0, 10.0]), "constrain_poly": rng.random() < 0.3}}
    if r < 0.82:
        ls = W.lines_of(w)
        return {"op": "atlas_user", "via": "cal", "w": [round(rng.choice(ls) + rng.uniform(-80, 80), 3) for _ in range(rng.randint(1, 3))],
                "args": {"candidate_tolerance": rng.choice([5.0, 10.0]), "constrain_poly": rng.random() < 0.3}}
    if r < 0.85:
        return S.g_known(rng, w)
    if r < 0.88:
        return {"op": "ht_add", "points": [[rng.uniform(1, 3), rng.uniform(3000, 5000)] for _ in range(rng.randint(1, 4))]}
    if r < 0.91:
        return {"op": "ht_bin", "x": rng.randint(4, 12), "y": rng.randint(4, 12)}
    fmt = rng.choice(["npy", "json"])
    if r < 0.96:
        return {"op": "save", "fmt": rng.choice([fmt, "npy+json"]), "file": "h"}
    return {"op": "load", "fmt": fmt, "file": "h"}


def gen(rng, tier):
    w = S.gen_small(rng)
    target = gen_target(rng, w)
    k = target["op"]
    prefix = []
    for _ in range(rng.randint(0, 2)):
        prefix.append(rng.choice([S.g_hough, S.g_ransac, S.g_known, S.g_atlas])(rng, w))
    if k in ("match", "refit") or rng.random() < 0.3:
        prefix.append(S.g_fit(rng, w))
        if rng.random() < 0.4:
            prefix.append(S.g_match(rng, w))
    if k in ("save", "load", "ht_add", "ht_bin") or rng.random() < 0.15:
        prefix.append({"op": "transform", "brute": rng.random() < 0.2})
    if k == "load":
        prefix += [{"op": "save", "fmt": target["fmt"], "file": "h"}, S.g_hough(rng, w), {"op": "transform"}]
    cuts = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        r = rng.random()
        if k in ("fit", "match", "refit") and r < 0.3:
            cuts.append({"solver": {"site": rng.choice(["least_squares", "polyfit", "legfit", "least_squares"]), "nth": rng.randrange(rng.choice([1, 2, 6])),
                                    "exc": rng.choice(["LinAlgError", "LinAlgError", "MemoryError", "KeyboardInterrupt", "ValueError"]), "repeat": rng.choice([1, 1, -1])}})
        elif k in ("save", "load") and r < 0.5:
            cuts.append({"disk": gen_fault(rng, k == "load")})
        else:
            cuts.append({"pos": trace.gen_pos(rng), "exc": rng.choice(EXC)})
    suffix = []
    if k in ("save",):
        suffix.append({"op": "load", "fmt": rng.choice(target["fmt"].split("+")), "file": "h"})
    for _ in range(rng.choice([0, 1, 1, 2])):
        suffix.append(rng.choice([S.g_fit, S.g_fit, S.g_match, S.g_refit, lambda r, w: {"op": "transform"}])(rng, w))
    if not any(o["op"] == "fit" for o in suffix) and k not in ("fit",) and rng.random() < 0.7:
        suffix.append(S.g_fit(rng, w))
    return {"world": w, "prefix": prefix, "target": target, "cuts": cuts, "suffix": suffix, "twice": rng.random() < 0.3}


def execute(plan):
    ctx = Ctx()
    if not W.valid(plan["world"]):
        return ctx
    begin(0)
    SIM.disk = SimDisk()
    try:
        _run(ctx, plan)
    finally:
        end()
    return ctx


def make(plan, tag):
    env = S.Env(plan["world"], tag=tag)
    b = W.make_atlas(plan["world"])
    b.remove_atlas_lines_range(W.lines_of(plan["world"])[0], 1.0)
    env.atlas["b"] = b
    return env


def do(ctx, env, op):
    with Quiet():
        return bounded(ctx, lambda: S.do(env, op), draws=1500, solves=50)


def look(env, op, out):
    v = None
    if op["op"] in ("fit", "match", "refit"):
        v = values(out.value)
    return out.brief(), v, S.state(env.c)


def files(env):
    found = {}
    for fmt in ("npy", "json"):
        p = env.file("h." + fmt)
        if os.path.exists(p):
            with REAL["open"](p, "rb") as f:
                found[fmt] = f.read()
    return found


def _run(ctx, plan):
    disk = SIM.disk
    disk.op_log = False
    disk.arm([])
    a, b = make(plan, "a"), make(plan, "b")
    for op in plan["prefix"]:
        oa, ob = do(ctx, a, op), do(ctx, b, op)
        if oa is None or ob is None:
            return
    target = plan["target"]
    k = target["op"]
    want, ref = trace.reference(lambda: do(ctx, a, target))
    if want is None:
        return
    want_look, want_files = look(a, target, want), files(a)
    again = k in TWICE
    if k in ("match", "refit"):
        again = target["args"].get("fit_coeff") is not None or (
            target["args"].get("matched_peaks") is not None and target["args"].get("degree") is not None
        )
    done = False
    for cut in plan["cuts"]:
        out, fired = issue(ctx, b, target, cut, ref)
        ctx.steps += 1
        if fired:
            ctx.nontrivial = True
            ctx.mark("cut", k, None if out is None else out.brief())
        if out is None or out.ok:
            if out is not None and out.ok:
                SIM.probe("survived:" + k)
            if not again:
                if fired:
                    return  # it did happen, perhaps on other solver results
                done = True
                break
        else:
            SIM.probe("interrupted:" + k)
            if not again and not S.diff(want_look[2], S.state(b.c)):
                # cut on the way out: all of it had happened
                SIM.probe("complete-nonetheless")
                done, out = True, want
                break
    if not done:
        out = do(ctx, b, target)
        if not ctx.check(out is not None, k + ":stuck", "%s issued again does not end" % k):
            return
    if plan["twice"] and again and out.ok:
        out = do(ctx, b, target)
        if not ctx.check(out is not None, k + ":stuck", "%s done twice does not end" % k):
            return
        SIM.probe("twice:" + k)
        ctx.nontrivial = True
    if not compare(ctx, k, want_look, look(b, target, out), "issued again"):
        return
    if k == "save" and want.ok:
        ctx.check(files(b) == want_files, "save:files", "saved again, the files differ from those of an uninterrupted save")
    for op in plan["suffix"]:
        oa, ob = do(ctx, a, op), do(ctx, b, op)
        if oa is None or ob is None:
            ctx.check(oa is ob, "suffix:stuck", "only one of two %s ended" % op["op"])
            return
        if not compare(ctx, k + ":then-" + op["op"], look(a, op, oa), look(b, op, ob), "after it was issued again, %s" % op["op"]):
            return
        ctx.mark(op["op"], oa.brief(), digest(look(a, op, oa)))
    SIM.note(digest(look(a, target, want)))


def issue(ctx, env, op, cut, ref):
    """The operation, cut short as the plan says."""
    before = sum(SIM.fired.values())
    if "solver" in cut:
        SIM.solver_calls = {}
        SIM.solver_faults = [cut["solver"]]
        try:
            out = do(ctx, env, op)
        finally:
            SIM.solver_faults = []
            SIM.solver_calls = {}
    elif "disk" in cut:
        fault = dict(cut["disk"])
        if fault["kind"].startswith("crash"):
            fault["kind"] = "eio"
        SIM.disk.arm([fault])
        try:
            out = do(ctx, env, op)
        finally:
            SIM.disk.arm([])
    else:
        t = trace.Tracer(at=trace.resolve(cut["pos"], ref), exc=cut["exc"])
        out = t.run(lambda: do(ctx, env, op))
    return out, sum(SIM.fired.values()) > before


def compare(ctx, cls, a, b, what):
    d = S.diff(a[2], b[2])
    return ctx.check(
        a[:2] == b[:2] and not d, cls,
        lambda: "%s: %s, uninterrupted: %s; result %s, state differs in %s" % (what, b[0], a[0], "equal" if a[1] == b[1] else "differs", d[:8]),
    )
