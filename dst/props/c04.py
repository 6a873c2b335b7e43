"""C04: a seeded calibration is exactly reproducible."""

import copy
import hashlib

from .. import script as S, world as W
from ..core import Ctx, SIM, SimClock, attempt, begin, bounded, digest, end, values, Quiet
from ..disk import SimDisk
from ..seams import IDS, REAL

RANDOM_OK = ("fit", "match", "refit")  # only fitting may draw


def quiet_ops(rng, w):
    """Something done between the seeding and the fit that is not fitting."""
    return rng.choice(
        [
            {"op": "atlas_list"},
            {"op": "pairs"},
            {"op": "which"},
            {"op": "save_mem", "fmt": "npy"},
            {"op": "save", "fmt": rng.choice(["npy", "json"]), "file": "q"},
            {"op": "new"},
            {"op": "other"},
            {"op": "other-seeded-never", "seed": None},
        ]
    )


def gen_seed(rng):
    return rng.choice([0, 0, 1, (1 << 32) - 1]) if rng.random() < 0.3 else rng.randrange(1 << 32)


def gen(rng, tier):
    w = S.gen_small(rng)
    seed = gen_seed(rng)
    ops = []
    for _ in range(rng.randint(0, 2)):
        ops.append(rng.choice([S.g_hough, S.g_ransac, S.g_cal, S.g_atlas, S.g_known])(rng, w))
    if rng.random() < 0.2:
        ops.append({"op": "transform", "brute": rng.random() < 0.3})
    ops.append({"op": "cal", "args": {"seed": seed}})
    for _ in range(rng.randint(0, 2)):
        ops.append(rng.choice([S.g_hough, S.g_ransac, S.g_cal, S.g_atlas, S.g_known])(rng, w))
    f = S.g_fit(rng, w)
    f["seed"] = None
    ops.append(f)
    for _ in range(rng.randint(0, 4)):
        op = rng.choice([S.g_fit, S.g_fit, S.g_match, S.g_refit, S.g_pair, S.g_ransac, S.g_hough, S.g_atlas])(rng, w)
        if op["op"] == "fit":
            op["seed"] = None
        ops.append(op)
    if rng.random() < 0.35:
        # seeding again with the same seed replays the same stream
        ops.append({"op": "cal", "args": {"seed": rng.choice([seed, gen_seed(rng)])}})
        f = S.g_fit(rng, w)
        f["seed"] = None
        ops.append(f)
    plan = {"world": w, "ops": ops, "sides": []}
    for side in range(2):
        hostile = side == 1 or rng.random() < 0.3
        prior = []
        for _ in range(rng.choice([0, 1, 2]) if hostile else 0):
            prior.append({"world": S.gen_small(rng) if rng.random() < 0.6 else None, "seed": rng.choice([None, gen_seed(rng)]),
                          "ops": [rng.choice([S.g_fit, S.g_match, S.g_refit, S.g_ransac])(rng, w) for _ in range(rng.randint(1, 3))]})
        inserts = []
        for _ in range(rng.choice([0, 1, 3, 5]) if hostile else 0):
            inserts.append([rng.randrange(len(ops)), quiet_ops(rng, w)])
        plan["sides"].append(
            {
                "start": rng.choice([0, rng.randrange(1 << 31)]),
                "pystart": rng.randrange(1 << 31),
                "entropy": rng.randrange(1 << 30),
                "salt": rng.randrange(1 << 20) if hostile else 0,
                "garbage": rng.choice([0.0, -1.0, 6.9e-310, 1e300, 777.5]) if hostile else 0.0,
                "clock": rng.choice([[0.01], [0.0], [1.5, -3.0, 0.2], [86400.0, -1e6], [1e-6, 7.0]]) if hostile else [0.01],
                "epoch": rng.choice([1.6e9, 0.0, 4e9]) if hostile else 1.6e9,
                "progress": hostile and rng.random() < 0.6,
                "log": rng.choice(["critical", "debug", "info"]) if hostile else "critical",
                "prior": prior,
                "inserts": inserts,
            }
        )
    plan["hash"] = [1, rng.choice([2, 3])] if rng.random() < 0.2 else None
    return plan


def remote(req):
    ctx = Ctx()
    trail = run_side(ctx, req["plan"], req["side"])
    return {"trail": trail, "violations": ctx.violations, "steps": ctx.steps, "stuck": ctx.stuck}


def execute(plan):
    ctx = Ctx()
    if not W.valid(plan["world"]):
        return ctx
    trails = []
    fired, probes = {}, {}
    for side in range(2):
        if plan["hash"]:
            from .. import helper

            begin(0)
            r = helper.ask("C04", plan["hash"][side], {"plan": plan, "side": side})
            trails.append(r["trail"])
            ctx.violations += r["violations"]
            ctx.steps += r["steps"]
            ctx.stuck += r["stuck"]
            SIM.probe("other-process")
            end()
        else:
            trails.append(run_side(ctx, plan, side))
        for k, v in SIM.fired.items():
            fired[k] = fired.get(k, 0) + v
        for k, v in SIM.probes.items():
            probes[k] = probes.get(k, 0) + v
    SIM.fired, SIM.probes = fired, probes
    a, b = trails
    for i, op in enumerate(plan["ops"]):
        if a[i] != b[i]:
            ctx.bad("differs:" + op["op"], "%s is %s in one run and %s in another with the same seed" % (op["op"], a[i], b[i]))
            break
        ctx.mark(op["op"], a[i][0])
        if op["op"] == "fit" and a[i][0] == "ok":
            ctx.nontrivial = True
    SIM.note(digest(a))
    ctx.mark(digest(a))
    return ctx


def rng_digest():
    import numpy as np

    name, keys, pos, has, cached = np.random.get_state()
    return hashlib.sha1(keys.tobytes() + repr((name, pos, has, cached)).encode()).hexdigest()


def run_side(ctx, plan, n):
    import random

    side = plan["sides"][n]
    begin(side["start"])
    random.seed(side["pystart"])
    SIM.entropy_base = side["entropy"]
    IDS.reset(side.get("salt", 0))
    SIM.garbage = side.get("garbage", 0.0)
    SIM.clock = SimClock(start=side["epoch"], steps=side["clock"])
    SIM.disk = SimDisk()
    SIM.disk.op_log = False
    try:
        return _side(ctx, plan, side)
    finally:
        if SIM.clock.jumps:
            SIM.fire("clock-jump", SIM.clock.jumps)
        end()


def do(ctx, env, op, side):
    if op["op"] == "fit":
        op = copy.deepcopy(op)
        op["over"]["progress"] = side["progress"]
        with Quiet():
            return bounded(ctx, lambda: S.do(env, op), draws=1500, solves=60)
    with Quiet():
        return attempt(lambda: S.do(env, op))


def _side(ctx, plan, side):
    others = []
    for p in side["prior"]:
        e = S.Env(p["world"] or plan["world"], tag="p")
        others.append(e)
        if p["seed"] is not None:
            e.c.set_calibrator_properties(seed=p["seed"])
        for op in p["ops"]:
            do(ctx, e, op, side)
        SIM.probe("prior-history")
    w = dict(plan["world"], log_level=side["log"])
    env = S.Env(w)
    trail = []
    seeded = False
    for i, op in enumerate(plan["ops"]):
        for at, ins in side["inserts"]:
            if at == i:
                still(ctx, lambda: insert(ctx, plan, side, env, others, ins), ins["op"])
        given = op["op"] == "cal" and op["args"].get("seed") is not None
        del SIM.reseeds[:]
        before = rng_digest()
        SIM.draws = SIM.state_reads = 0
        out = do(ctx, env, op, side)
        after = rng_digest()
        want = [op["args"]["seed"]] if given else []
        ctx.check(SIM.reseeds == want, "reseeded:" + op["op"], "the generator was seeded with %r, the caller gave %r" % (SIM.reseeds, want))
        ctx.check(
            given or op["op"] in RANDOM_OK or before == after,
            "draws:" + op["op"], "%s used random numbers" % op["op"],
        )
        seeded = seeded or given
        ctx.check(not SIM.own, "own-generator:" + op["op"], "%s made a generator of its own, seeded with %s" % (op["op"], SIM.own))
        if out is None:
            trail.append(["stuck", after if seeded else ""])
            continue
        what = values(out.value) if op["op"] in ("fit", "match", "refit", "pairs") else ""
        trail.append([out.brief(), digest((what, S.held(env.c), after)) if seeded else ""])
    SIM.note(trail)
    return trail


def still(ctx, fn, name):
    del SIM.reseeds[:]
    before = rng_digest()
    fn()
    ctx.check(before == rng_digest(), "draws:" + name, "%s used random numbers" % name)
    ctx.check(not SIM.reseeds, "reseeded:" + name, "%s seeded the generator" % name)
    SIM.probe("inserted:" + name)


def insert(ctx, plan, side, env, others, ins):
    if ins["op"] == "new":
        others.append(S.Env(plan["world"], tag="n"))
        others[-1].c.do_hough_transform()
    elif ins["op"] == "other":
        if others:
            do(ctx, others[-1], {"op": "transform"}, side)
            do(ctx, others[-1], {"op": "cal", "args": {"log_level": side["log"]}}, side)
    elif ins["op"] == "other-seeded-never":
        if others:
            do(ctx, others[-1], {"op": "cal", "args": {}}, side)
    else:
        do(ctx, env, ins, side)
