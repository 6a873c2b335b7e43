"""C14: editing matched pairs behaves like editing an ordered set of pairs."""

import math

import numpy as np

from .. import script as S, trace, world as W
from ..core import Ctx, SIM, Quiet, bounded, begin, digest, end, values

EXC = ["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError"]
EXACT = 0.01  # Angstrom, on wavelengths of thousands


def gen(rng, tier):
    w = S.gen_small(rng, kinds=("clean", "clean", "clean", "noisy", "grid"))
    S.easy(w, rng)
    r = rng.random()
    ps = sorted(rng.sample(w["pairs"], rng.randint(min(3, len(w["pairs"])), len(w["pairs"]))))
    start = {"op": "start", "as": rng.choice(["fit", "fit", "list", "array", "ints", "whole", "wholes", "mixed", "unsorted"]), "pairs": ps}
    ops = []
    for _ in range(rng.randint(3, 9)):
        r = rng.random()
        if r < 0.24:
            o = {"op": "add", "how": rng.choice(["true", "true", "true", "off", "equal", "near", "near", "before", "after"]), "v": round(rng.random(), 4),
                 "type": rng.choice(["float", "float", "np", "int"])}
        elif r < 0.44:
            o = {"op": "remove", "v": rng.choice([0.0, 0.999, round(rng.random(), 4)]), "neg": rng.random() < 0.2, "np": rng.random() < 0.3}
        elif r < 0.48:
            o = {"op": "remove_bad", "at": rng.choice([60, -61, 1000])}
        elif r < 0.78:
            o = {"op": "refit", "how": rng.choice(["plain", "plain", "degree", "degree", "x0", "x0deg"]), "degree": rng.choice([1, 2, 2, 3, 3, 4])}
            if rng.random() < 0.25:
                sub = sorted(rng.sample(w["pairs"], rng.randint(2, len(w["pairs"]))))
                if rng.random() < 0.2:
                    rng.shuffle(sub)
                o["pairs"] = sub
                o["as"] = rng.choice(["list", "array", "ints", "whole", "wholes", "mixed"])
        elif r < 0.84:
            o = {"op": "refit_bad", "how": rng.choice(["degree", "zero", "lengths", "empty", "x0"])}
        elif r < 0.9:
            o = {"op": "list"}
        elif r < 0.95:
            o = dict(S.g_match(rng, w), lib=True)
        else:
            o = dict(S.g_fit(rng, w), lib=True)
            if rng.random() < 0.5:
                o["over"]["candidate_tolerance"] = 1e-9
        e = {"op": o}
        r = rng.random()
        if r < 0.16:
            e["cut"] = {"pos": trace.gen_pos(rng), "exc": rng.choice(EXC)}
        elif r < 0.3:
            e["solver"] = {"site": rng.choice(["least_squares", "least_squares", "insert", "delete"]), "nth": 0,
                           "exc": rng.choice(["LinAlgError", "ValueError", "MemoryError", "KeyboardInterrupt"]), "repeat": 1}
        if ("cut" in e or "solver" in e) and rng.random() < 0.7:
            e["again"] = True
        ops.append(e)
    return {"world": w, "start": start, "ops": ops}


def shape(v, how, k):
    v = [float(t) for t in v]
    if how == "ints":
        return [int(round(t)) for t in v] if k == 0 else v
    if how in ("whole", "wholes"):  # whole numbers throughout
        v = [int(round(t)) for t in v]
        return np.array(v) if how == "wholes" else v
    if how == "array" or (how == "mixed" and k == 0):
        return np.array(v)
    return v


def held(c):
    return [(float(p), float(v)) for p, v in zip(c.matched_peaks, c.matched_atlas)], len(c.matched_peaks) == len(c.matched_atlas)


def listed(c):
    return [(int(i), float(p), float(v)) for i, p, v in c.get_pix_wave_pairs()]


def execute(plan):
    ctx = Ctx()
    if not W.valid(plan["world"]):
        return ctx
    begin(0)
    try:
        _run(ctx, plan)
    finally:
        end()
    return ctx


def do(ctx, fn):
    with Quiet():
        return bounded(ctx, fn, draws=1500, solves=60)


def in_order(m):
    return all(a[0] <= b[0] for a, b in zip(m, m[1:]))


def on_polynomial(w, m, degree):
    """Do these pairs lie on the world's polynomial, and does it have this degree?"""
    if len(w["coef"]) - 1 > degree:
        return False
    if any(abs(v - W.polyval(w["coef"], p)) > 1e-9 * abs(v) for p, v in m):
        return False
    xs = {p for p, _ in m}
    return len(xs) > degree and max(xs) - min(xs) > 0.3 * w["npix"]


def _run(ctx, plan):
    w = plan["world"]
    env = S.Env(w)
    c = env.c
    f = do(ctx, lambda: S.do(env, {"op": "fit", "seed": 5, "over": {}}))
    if f is None or not f.ok:
        ctx.mark("no-solution")
        return
    start = plan["start"]
    if start["as"] != "fit":
        ps = [tuple(p) for p in start["pairs"]]
        if start["as"] == "unsorted":
            ps = ps[1:] + ps[:1]
        a = {"matched_peaks": shape([p for p, _ in ps], start["as"], 0), "matched_atlas": shape([v for _, v in ps], start["as"], 1), "degree": 1}
        f = do(ctx, lambda: c.manual_refit(**a))
        if f is None or not f.ok:
            ctx.mark("start", None if f is None else f.brief())
            return
        want = list(zip([float(t) for t in a["matched_peaks"]], [float(t) for t in a["matched_atlas"]]))
        m, same = held(c)
        if not ctx.check(same and m == want, "refit:pairs", lambda: "a refit given %r holds %r" % (want, m)):
            return
    m, same = held(c)
    if not ctx.check(same, "fit:lengths", "a fit leaves %d pixels and %d wavelengths" % (len(c.matched_peaks), len(c.matched_atlas))):
        return
    for e in plan["ops"]:
        for attempt in range(2 if e.get("again") else 1):
            m = step(ctx, plan, env, e, m, attempt)
            if m is None:
                return
    SIM.note(digest(m))


def build(plan, env, o, m):
    """(call, possible new lists of pairs, kind) for one operation."""
    c, w = env.c, plan["world"]
    k = o["op"]
    if k == "add":
        if o["how"] == "true":
            p, v = w["pairs"][min(int(o["v"] * len(w["pairs"])), len(w["pairs"]) - 1)]
        elif o["how"] == "equal" and m:
            p = m[min(int(o["v"] * len(m)), len(m) - 1)][0]
            v = W.polyval(w["coef"], p) + 3.0
        else:
            p = {"before": -20.0, "after": w["npix"] + 20.0}.get(o["how"], round(o["v"] * w["npix"], 2))
            if o["how"] == "near" and m:
                p = m[int(o["v"] * len(m)) % len(m)][0] + 0.8 * (o["v"] * 1e3 % 1 - 0.5)
            v = W.polyval(w["coef"], p) + (5.0 if o["how"] == "off" else 0.0)
        if o["type"] == "int":
            p = int(p)
        p, v = (np.float64(p), np.float64(v)) if o["type"] == "np" else (p, v)
        return (lambda: c.add_pix_wave_pair(p, v)), ("add", (float(p), float(v)))
    if k == "remove":
        if not m:
            return None, None
        i = min(int(o["v"] * len(m)), len(m) - 1)
        at = i - len(m) if o["neg"] else i
        at = np.int64(at) if o["np"] else at
        return (lambda: c.remove_pix_wave_pair(at)), ("set", m[:i] + m[i + 1 :])
    if k == "remove_bad":
        return (lambda: c.remove_pix_wave_pair(o["at"])), ("bad", None)
    if k == "list":
        return (lambda: c.get_pix_wave_pairs()), ("set", m)
    if k == "refit":
        a = {}
        new = m
        if "pairs" in o:
            a["matched_peaks"] = shape([p for p, _ in o["pairs"]], o["as"], 0)
            a["matched_atlas"] = shape([v for _, v in o["pairs"]], o["as"], 1)
            new = list(zip([float(t) for t in a["matched_peaks"]], [float(t) for t in a["matched_atlas"]]))
        d = o["degree"]
        if o["how"] == "degree":
            a["degree"] = d
        elif o["how"] == "x0":
            a["x0"] = S.truth_coef(w, d)
        elif o["how"] == "x0deg":
            a["x0"] = S.truth_coef(w, d)
            a["degree"] = d
        else:
            d = None if c.fit_coeff is None else len(c.fit_coeff) - 1
        return (lambda: c.manual_refit(**a)), ("refit", new, d)
    if k == "refit_bad":
        x, y = [p for p, _ in w["pairs"]], [v for _, v in w["pairs"]]
        a = {
            "degree": {"degree": 40}, "zero": {"degree": 0}, "lengths": {"matched_peaks": x, "matched_atlas": y[1:], "degree": 1},
            "empty": {"matched_peaks": [], "matched_atlas": [], "degree": 1}, "x0": {"degree": 3, "x0": [1.0, 2.0]},
        }[o["how"]]
        return (lambda: c.manual_refit(**a)), ("bad", None)
    return (lambda: S.do(env, o)), ("lib", None)


def step(ctx, plan, env, e, m, attempt):
    c, w, o = env.c, plan["world"], e["op"]
    k = o["op"]
    call, want = build(plan, env, o, m)
    if call is None:
        return m
    before = S.held(c)
    cut = None
    if attempt == 0 and "cut" in e:
        # where the operation goes is learnt on a copy of this calibrator
        import copy

        twin = S.Env(w)
        keep, keep_c = env.c, c
        for f in S.HELD + ("polyval", "polyfit"):
            if f in vars(c):
                v = vars(c)[f]
                setattr(twin.c, f, v if callable(v) else copy.deepcopy(v))
        rcall, _ = build(plan, twin, o, m)
        _, ref = trace.reference(lambda: do(ctx, rcall))
        cut = trace.Tracer(at=trace.resolve(e["cut"]["pos"], ref), exc=e["cut"]["exc"])
    SIM.solver_calls = {}
    SIM.solver_faults = [e["solver"]] if attempt == 0 and "solver" in e else []
    n = sum(SIM.fired.values())
    out = cut.run(lambda: do(ctx, call)) if cut else do(ctx, call)
    SIM.solver_faults = []
    ctx.steps += 1
    if out is None:
        ctx.mark("stuck", k)
        return None
    struck = sum(SIM.fired.values()) > n
    now, same = held(c)
    SIM.probe("%s:%s" % (k, out.brief()))
    ctx.mark(k, out.brief(), len(now), struck)
    name = k + (":struck" if struck else "")
    if not ctx.check(same, name + ":lengths", lambda: "after %s (%r) there are %d pixels and %d wavelengths" % (k, out, len(c.matched_peaks), len(c.matched_atlas))):
        return None
    kind = want[0]
    ctx.nontrivial = True
    if kind == "lib":
        if not out.ok:
            d = S.diff(before, S.held(c))
            ok = now == m or struck
            ctx.check(ok, name + ":changed", "a failed %s changed the pairs" % k)
            return now if ok else None
        if out.value[1] is None:
            return now
        got = list(zip([float(t) for t in out.value[1]], [float(t) for t in out.value[2]]))
        return now if ctx.check(got == now, name + ":pairs", "%s returned other pairs than it holds" % k) else None
    if kind == "bad":
        ctx.check(not out.ok, name + ":accepted", lambda: "%s %r was accepted" % (k, o))
        ctx.check(now == m and not S.diff(before, S.held(c)), name + ":changed", lambda: "a refused %s changed %s" % (k, ", ".join(S.diff(before, S.held(c))) or "the pairs"))
        return m if not ctx.violations else None
    if not out.ok and now == m:
        # nothing happened; it must have had a reason
        legit = struck or (kind == "refit" and (want[2] is None or want[2] < 1 or len(want[1]) <= want[2] or not finite(want[1])))
        legit = legit or (kind == "refit" and (len({p for p, _ in want[1]}) <= want[2] or len({v for _, v in want[1]}) < 2))
        if not ctx.check(legit, name + ":refused", lambda: "%s %r on %d pairs raised %r" % (k, o, len(m), out)):
            return None
        d = S.diff(before, S.held(c))
        if not ctx.check(not d, name + ":half", lambda: "%s raised %r and changed %s" % (k, out, ", ".join(d))):
            return None
        return m
    # it happened (or was struck after it had)
    if kind == "add":
        left = list(now)
        ok = want[1] in left
        if ok:
            # one place at which taking the pair out leaves the others as they were
            ok = any(now[i] == want[1] and now[:i] + now[i + 1 :] == m for i in range(len(now)))
        if not ctx.check(ok, name + ":pairs", lambda: "adding %r to %r gave %r" % (want[1], m, now)):
            return None
        if not ctx.check(not in_order(m) or in_order(now), name + ":order", lambda: "adding %r to %r (in order) gave %r" % (want[1], m, now)):
            return None
    else:
        if not ctx.check(now == want[1], name + ":pairs", lambda: "%s %r on %r gave %r instead of %r" % (k, o, m, now, want[1])):
            return None
    if k == "list" and out.ok:
        got = [(int(i), float(p), float(v)) for i, p, v in out.value]
        if not ctx.check(got == [(i, p, v) for i, (p, v) in enumerate(m)], "list:pairs", lambda: "the pairs %r are listed as %r" % (m, got)):
            return None
    l = listed(c)
    if not ctx.check(l == [(i, p, v) for i, (p, v) in enumerate(now)], name + ":listed", lambda: "the pairs %r are listed as %r" % (now, l)):
        return None
    if kind == "refit" and out.ok:
        co, rp, ra, rms, res = out.value
        co = [float(t) for t in co]
        got = list(zip([float(t) for t in rp], [float(t) for t in ra]))
        if not ctx.check(got == now and len(rp) == len(ra), "refit:returned", lambda: "a refit of %r returned the pairs %r" % (now, got)):
            return None
        if not ctx.check(len(co) == want[2] + 1 and all(map(math.isfinite, co)), "refit:coefficients", lambda: "a refit of degree %d returned %r" % (want[2], co)):
            return None
        r = [v - W.polyval(co, p) for p, v in now]
        res = [float(t) for t in np.asarray(res).ravel()]
        tol = 1e-6
        ok = len(res) == len(r) and all(abs(a - b) <= tol for a, b in zip(r, res))
        if not ctx.check(ok, "refit:residuals", lambda: "residuals %r, the polynomial leaves %r" % (res, r)):
            return None
        mine = math.sqrt(sum(t * t for t in r) / len(r))
        if not ctx.check(abs(mine - float(rms)) <= tol, "refit:rms", lambda: "rms %r, the polynomial leaves %r" % (rms, mine)):
            return None
        stored = values([c.fit_coeff, c.rms, c.residuals])
        if not ctx.check(stored == values([co, rms, res]), "refit:stored", "a refit returned another solution than the calibrator holds"):
            return None
        if on_polynomial(w, now, want[2]):
            worst = max(abs(t) for t in r)
            SIM.probe("exact")
            if not ctx.check(worst < EXACT, "refit:exact:" + o["how"], lambda: "%d pairs on a polynomial of degree %d, refitted (%s) with degree %d: off by %g" % (len(now), len(w["coef"]) - 1, o["how"], want[2], worst)):
                return None
    elif kind in ("add", "set") and out.ok:
        # an edit is not a refit
        d = [x for x in S.diff(before, S.held(c)) if x not in ("matched_peaks", "matched_atlas")]
        if not ctx.check(not d, name + ":else", lambda: "%s also changed %s" % (k, ", ".join(d))):
            return None
    return now


def finite(m):
    return all(math.isfinite(p) and math.isfinite(v) for p, v in m)
