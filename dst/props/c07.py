"""C07: a failed refinement leaves the previous solution untouched."""

import copy

from .. import script as S, trace, world as W
from ..core import Ctx, SIM, attempt, begin, bounded, digest, end, values, Quiet

EXC = ["KeyboardInterrupt"] * 4 + ["MemoryError"]


def g_bad(rng, w):
    """An operation that cannot succeed, or is unlikely to."""
    f = S.g_fit(rng, w)
    m = S.g_match(rng, w)
    r = rng.random()
    if r < 0.12:
        f["over"]["fit_type"] = "spline"
        f["over"]["fit_deg"] = rng.randint(1, 5)
        return f
    if r < 0.3:
        f["over"]["fit_deg"] = rng.choice([9, 12, 20])
        return f
    if r < 0.42:
        f["over"]["candidate_tolerance"] = 1e-9
        f["over"]["fit_type"] = rng.choice(["poly", "legendre"])
        return f
    if r < 0.52:
        m["args"] = {"tolerance": rng.choice([0.0, 1e-12]), "fit_deg": rng.choice([None, 1, 3])}
        return m
    if r < 0.62:
        m["args"]["fit_coeff"] = rng.choice([[1e7, 1.0], [0.0, 0.0, 0.0], [float("nan")] * 3])
        return m
    if r < 0.7:
        m["args"].update({"robust_refit": False, "tolerance": 0.0})
        return m
    if r < 0.86:
        ps = w["pairs"]
        a = rng.choice([
            {"degree": 40}, {"degree": 0}, {"degree": 2, "x0": [1.0]}, {"degree": 1.5},
            {"matched_peaks": [1.0, 2.0, 3.0], "degree": 1}, {"matched_peaks": [], "matched_atlas": [], "degree": 1},
            {"matched_peaks": [p for p, _ in ps], "matched_atlas": [v for _, v in ps[1:]], "degree": 1},
        ])
        return {"op": "refit", "args": a}
    return rng.choice([
        {"op": "pair_remove", "at": rng.choice([50, -60])},
        {"op": "pair_add", "pix": "x", "wave": 4000.0},
        {"op": "pair_add", "pix": 100.0, "wave": "y"},
    ])


def gen_solver(rng, k):
    sites = {
        "fit": ["least_squares", "polyfit", "legfit", "chebfit"],
        "match": ["least_squares", "polyfit", "legfit", "minimize"],
        "refit": ["least_squares"],
        "pair_add": ["insert"],
        "pair_remove": ["delete"],
    }[k]
    return {"site": rng.choice(sites), "nth": rng.randrange(rng.choice([1, 1, 2, 5])),
            "exc": rng.choice(["LinAlgError", "LinAlgError", "ValueError", "MemoryError", "KeyboardInterrupt"]), "repeat": rng.choice([1, -1, -1])}


def gen(rng, tier):
    w = S.gen_small(rng, kinds=("clean", "clean", "clean", "noisy"))
    S.easy(w, rng)
    first = S.g_fit(rng, w)
    first["over"] = {"fit_type": rng.choice(["poly", "poly", "legendre", "chebyshev"]), "max_tries": 16}
    prefix = [first]
    if rng.random() < 0.5:
        ps = rng.sample(w["pairs"], min(len(w["pairs"]), w["deg"] + 1))
        prefix.insert(0, {"op": "known", "pix": [p for p, _ in ps], "wave": [v for _, v in ps]})
        if rng.random() < 0.7:
            prefix.append({"op": "known", "pix": [], "wave": []})
    if rng.random() < 0.35:
        prefix.append(S.g_match(rng, w))
    if rng.random() < 0.25:
        prefix.append(S.g_refit(rng, w))
    if rng.random() < 0.2:
        prefix.append(S.g_pair(rng, w))
    assaults = []
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        if r < 0.4:
            a = {"op": g_bad(rng, w)}
        else:
            op = rng.choice([S.g_fit, S.g_fit, S.g_match, S.g_match, S.g_refit, S.g_pair])(rng, w)
            if op["op"] == "pairs":
                continue
            a = {"op": op}
            if r < 0.6:
                a["solver"] = gen_solver(rng, op["op"])
            else:
                a["cut"] = {"pos": trace.gen_pos(rng), "exc": rng.choice(EXC)}
        assaults.append(a)
    suffix = [{"op": "pairs"}]
    for _ in range(rng.randint(1, 3)):
        suffix.append(rng.choice([S.g_match, S.g_refit, S.g_refit, S.g_pair, S.g_pair, S.g_fit])(rng, w))
    return {"world": w, "prefix": prefix, "assaults": assaults, "suffix": suffix, "own": rng.random() < 0.5}


def execute(plan):
    ctx = Ctx()
    if not W.valid(plan["world"]):
        return ctx
    begin(0)
    try:
        _run(ctx, plan)
    finally:
        end()
    return ctx


def do(ctx, env, op):
    with Quiet():
        return bounded(ctx, lambda: S.do(env, op), draws=1600, solves=90)


def _run(ctx, plan):
    def fresh(history):
        env = S.Env(plan["world"])
        for op in history:
            do(ctx, env, op)
        return env

    history = list(plan["prefix"])
    env = fresh(history)
    if S.held(env.c)["rms"] is None:
        ctx.mark("no-solution")
        return
    for a in plan["assaults"]:
        op = a["op"]
        k = op["op"]
        before = S.held(env.c)
        atlas = S.inputs(env.c)
        complete = None
        if "cut" in a:
            twin = fresh(history)
            _, ref = trace.reference(lambda: do(ctx, twin, op))
            complete = S.held(twin.c)
            t = trace.Tracer(at=trace.resolve(a["cut"]["pos"], ref), exc=a["cut"]["exc"])
            out = t.run(lambda: do(ctx, env, op))
            fired = t.fired
        else:
            SIM.solver_calls = {}
            SIM.solver_faults = [a["solver"]] if "solver" in a else []
            out = do(ctx, env, op)
            fired = None
            SIM.solver_faults = []
        ctx.steps += 1
        ctx.mark(k, None if out is None else out.brief(), fired and fired[1])
        if out is not None and out.ok:
            # it found something: not a failure, and the new solution is what counts
            SIM.probe("succeeded:" + k)
            if "solver" in a or "cut" in a:
                return
            history.append(op)
            continue
        now = S.held(env.c)
        d = S.diff(before, now)
        SIM.probe("failed:" + k)
        ctx.nontrivial = True
        if d and complete is not None and not S.diff(complete, now):
            SIM.probe("complete-nonetheless:" + k)
            history.append(op)
            continue
        how = "interrupted" if fired else "failed"
        if not ctx.check(
            not d, "%s:%s" % (how, k),
            "%s %s (%s), and left another %s behind" % (how, k, "gave up" if out is None else repr(out), ", ".join(d)),
        ):
            return
        ctx.check(atlas == S.inputs(env.c), how + ":inputs", "%s %s changed peaks, spectrum or atlas" % (how, k))
    if not ctx.nontrivial:
        return
    # used from here on, it is as good as one that was never attacked
    other = fresh(history)
    for op in plan["suffix"]:
        if op["op"] == "fit" and "cut" in plan["assaults"][-1] and not plan["own"]:
            continue
        a, b = do(ctx, other, op), do(ctx, env, op)
        if a is None or b is None:
            ctx.check(a is b, "then:stuck", "only one of two %s ended" % op["op"])
            return
        va, vb = values(a.value), values(b.value)
        d = S.diff(S.held(other.c), S.held(env.c))
        ctx.mark(op["op"], b.brief(), digest(vb))
        if not ctx.check(
            a.brief() == b.brief() and va == vb and not d, "then:" + op["op"],
            "after the failure %s gives %s, without it %s; %s differ" % (op["op"], b.brief(), a.brief(), d),
        ):
            return
    SIM.note(digest(S.held(env.c)))
