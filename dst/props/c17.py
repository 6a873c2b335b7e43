"""C17: refining against the whole atlas returns one consistent solution."""

import math

import numpy as np

from .. import oracle as O, script as S, trace, world as W
from ..core import Ctx, SIM, Quiet, bounded, begin, digest, end, values

EXC = ["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError"]
EXACT = 0.01  # Angstrom, on wavelengths of thousands
EDGE = 1e-6  # lines this close to the tolerance may count or not
TOL = 1e-6


def gen_match(rng, w):
    disp = abs(W.polyval(w["coef"], w["npix"]) - w["coef"][0]) / w["npix"]
    s = {
        "do": "match",
        "from": rng.choice(["truth", "truth", "held", "held", "shift", "low"]),
        "shift": [round(rng.uniform(-6, 6), 3), round(rng.uniform(-0.02, 0.02) * disp, 6)],
        "as": rng.choice(["array", "list", "array"]),
        "tol": rng.choice([0.05, 0.5, 2.0, 5.0, 5.0, 10.0, 10.0, 15.0, None]),
        "deg": rng.choice([None, None, 1, 2, 2, 3, 4]),
    }
    if s["as"] == "array" and rng.random() < 0.12:
        s["refine"] = True
    return s


def gen_step(rng, w):
    r = rng.random()
    if r < 0.5:
        s = gen_match(rng, w)
    elif r < 0.62:
        s = {"do": "op", "op": S.g_fit(rng, w)}
        if rng.random() < 0.4:
            s["op"]["over"]["candidate_tolerance"] = 1e-9
    elif r < 0.76:
        s = {"do": "op", "op": S.g_atlas(rng, w)}
        if rng.random() < 0.35:
            s["op"] = {"op": "set_atlas", "which": rng.choice("ab"), "args": {"candidate_tolerance": 10.0}}
        elif rng.random() < 0.1:
            s["op"] = {"op": "atlas_clear", "via": rng.choice(["atlas", "cal"])}
    elif r < 0.88:
        s = {"do": "op", "op": S.g_pair(rng, w)}
    elif r < 0.96:
        s = {"do": "op", "op": S.g_refit(rng, w)}
    else:
        s = {"do": "op", "op": rng.choice([S.g_ransac, S.g_hough, S.g_cal, S.g_known])(rng, w)}
    r = rng.random()
    if r < 0.2:
        s["cut"] = {"pos": trace.gen_pos(rng), "exc": rng.choice(EXC)}
    elif r < 0.36:
        s["solver"] = {"site": rng.choice(["least_squares", "least_squares", "polyfit", "legfit", "chebfit"]), "nth": rng.choice([0, 0, 1]),
                       "exc": rng.choice(["LinAlgError", "ValueError", "MemoryError", "KeyboardInterrupt"]), "repeat": rng.choice([1, 1, -1])}
    if ("cut" in s or "solver" in s) and s["do"] == "match":
        s["again"] = rng.random() < 0.8
    return s


def gen(rng, tier):
    w = S.gen_small(rng, kinds=("clean", "clean", "clean", "noisy", "grid", "grid"))
    S.easy(w, rng)
    steps = [gen_step(rng, w) for _ in range(rng.randint(4, 9))]
    steps.append(gen_match(rng, w))
    other = [round(W.polyval(w["coef"], p) + rng.choice([0.0, 1.0, -2.5, 30.0]), 3) for p, _ in w["pairs"]]
    rng.shuffle(other)
    return {"world": w, "other": other[: rng.randint(3, len(other))], "steps": steps}


def execute(plan):
    ctx = Ctx()
    if not W.valid(plan["world"]):
        return ctx
    begin(0)
    try:
        _run(ctx, plan)
    finally:
        end()
    return ctx


def do(ctx, fn):
    with Quiet():
        return bounded(ctx, fn, draws=1500, solves=60)


def setup(plan):
    env = S.Env(plan["world"])
    from rascal.atlas import Atlas

    b = Atlas()
    with Quiet():
        b.add_user_atlas(["B"] * len(plan["other"]), list(plan["other"]))
    env.atlas["b"] = b
    env.c.do_hough_transform()
    return env


def lines_in(c):
    if c.atlas is None:
        return []
    return [float(l.wavelength) for l in c.atlas.atlas_lines]


def incoming(env, s):
    """The coefficients to start from, or None to use the stored ones."""
    w = env.w
    if s["from"] == "held":
        return None
    co = S.truth_coef(w)
    if s["from"] == "shift":
        co[0] += s["shift"][0]
        if len(co) > 1:
            co[1] += s["shift"][1]
    if s["from"] == "low":
        x = np.linspace(0, w["npix"], 20)
        y = W.polyval(w["coef"], x)
        co = [float(t) for t in np.polynomial.polynomial.polyfit(x, y, 1)]
    return co


def call(env, s, co):
    a = {}
    if co is not None:
        a["fit_coeff"] = np.array(co) if s["as"] == "array" else list(co)
    if s["tol"] is not None:
        a["tolerance"] = s["tol"]
    if s["deg"] is not None:
        a["fit_deg"] = s["deg"]
    if s.get("refine"):
        a["refine"] = True
    return lambda: env.c.match_peaks(**a)


def expect(env, co, tol):
    """The pairs to be matched, or None if that is not settled."""
    lines = np.array(lines_in(env.c))
    out = []
    for p in env.c.peaks:
        d = np.abs(lines - W.polyval(co, float(p)))
        if len(d) and np.min(np.abs(d - tol)) < EDGE:
            return None
        near = lines[d < tol]
        if len(near) > 1:
            return None
        if len(near):
            out.append((float(p), float(near[0])))
    return out


def huber(pairs, deg):
    """The polynomial values of the fit with Huber loss, as documented (inputs
    of unit variance, loss linear beyond one), by reweighting."""
    x, y = np.array(pairs).T
    ys = y.std()
    t = (2 * x - x.min() - x.max()) / np.ptp(x)
    v = np.polynomial.chebyshev.chebvander(t, deg)
    wt = np.ones(len(x))
    for _ in range(60):
        s = np.sqrt(wt)
        co = np.linalg.lstsq(v * s[:, None], y * s, rcond=None)[0]
        r = np.abs(v @ co - y) / ys
        new = np.where(r > 1, 1 / np.maximum(r, 1), 1.0)
        if np.max(np.abs(new - wt)) < 1e-12:
            break
        wt = new
    return v @ co


def _run(ctx, plan):
    env = setup(plan)
    f = do(ctx, lambda: S.do(env, {"op": "fit", "seed": 5, "over": {}}))
    if f is None or not f.ok:
        ctx.mark("no-solution")
        return
    done = []
    for s in plan["steps"]:
        for attempt in range(2 if s.get("again") else 1):
            clean = attempt == 1 or not ("cut" in s or "solver" in s)
            co = None
            if s["do"] == "match":
                co = incoming(env, s)
                fn = lambda: call(env, s, co)()
            else:
                fn = lambda: S.do(env, s["op"])
            cut = None
            if attempt == 0 and "cut" in s:
                # where the operation goes is learnt on a twin with this history
                twin = setup(plan)
                do(ctx, lambda: S.do(twin, {"op": "fit", "seed": 5, "over": {}}))
                for h in done:
                    do(ctx, lambda: call(twin, h, incoming(twin, h))() if h["do"] == "match" else S.do(twin, h["op"]))
                _, ref = trace.reference(lambda: do(ctx, lambda: call(twin, s, incoming(twin, s))() if s["do"] == "match" else S.do(twin, s["op"])))
                cut = trace.Tracer(at=trace.resolve(s["cut"]["pos"], ref), exc=s["cut"]["exc"])
            SIM.solver_calls = {}
            SIM.solver_faults = [s["solver"]] if attempt == 0 and "solver" in s else []
            held = None if env.c.fit_coeff is None else [float(t) for t in env.c.fit_coeff]
            n = sum(SIM.fired.values())
            out = cut.run(lambda: do(ctx, fn)) if cut else do(ctx, fn)
            SIM.solver_faults = []
            ctx.steps += 1
            if out is None:
                ctx.mark("stuck", s["do"])
                return
            struck = sum(SIM.fired.values()) > n
            if not cut and out.ok and not struck:
                done.append(s)
            if s["do"] != "match":
                ctx.mark(s["op"]["op"], out.brief(), struck)
                continue
            if not look(ctx, env, s, held if co is None else co, out, struck):
                return


def look(ctx, env, s, co, out, struck):
    c = env.c
    tol = 10.0 if s["tol"] is None else s["tol"]
    if co is None:
        return True
    deg = len(co) - 1 if s["deg"] is None else s["deg"]
    want = expect(env, co, tol)
    ctx.mark("match", out.brief(), struck, None if want is None else len(want), deg)
    if want is None:
        SIM.probe("ambiguous")
        return True
    enough = len({p for p, _ in want}) > deg and len({v for _, v in want}) > 1
    if not out.ok:
        SIM.probe("raised" + (":struck" if struck else ""))
        return ctx.check(struck or not enough, "refused", lambda: "refining with %d unambiguous pairs for degree %d raised %r" % (len(want), deg, out))
    ctx.nontrivial = True
    SIM.probe("unambiguous")
    name = "struck:" if struck else ""
    rc, rp, ra, rms, res, pu, au = out.value
    if not ctx.check(rp is not None and ra is not None and len(rp) == len(ra), name + "lengths", lambda: "returned pixels %r and wavelengths %r" % (rp, ra)):
        return False
    got = list(zip([float(t) for t in rp], [float(t) for t in ra]))
    if not ctx.check(sorted(got) == sorted(want), name + "pairs", lambda: "refining %r within %g matched %r instead of %r" % (co, tol, got, want)):
        return False
    if got != want:
        SIM.probe("other-order")
    coef = [float(t) for t in rc]
    if not ctx.check(len(coef) == deg + 1 and all(map(math.isfinite, coef)), name + "coefficients", lambda: "refining to degree %d returned %r" % (deg, coef)):
        return False
    r = [v - W.polyval(coef, p) for p, v in got]
    res = [float(t) for t in np.asarray(res).ravel()]
    ok = len(res) == len(r) and all(abs(a - b) <= TOL for a, b in zip(r, res))
    if not ctx.check(ok, name + "residuals", lambda: "residuals %r, the returned polynomial leaves %r" % (res, r)):
        return False
    mine = math.sqrt(sum(t * t for t in r) / len(r))
    if not ctx.check(abs(mine - float(rms)) <= TOL, name + "rms", lambda: "rms %r, the returned polynomial leaves %r" % (rms, mine)):
        return False
    n = len(lines_in(c))
    if not ctx.check(abs(float(pu) - len(got) / len(c.peaks)) < 1e-12, name + "peak-utilisation", lambda: "%d of %d peaks, peak utilisation %r" % (len(got), len(c.peaks), pu)):
        return False
    if not ctx.check(abs(float(au) - len(got) / n) < 1e-12, name + "atlas-utilisation", lambda: "%d of %d lines, atlas utilisation %r" % (len(got), n, au)):
        return False
    stored = values([c.fit_coeff, c.matched_peaks, c.matched_atlas, c.rms, c.residuals, c.peak_utilisation, c.atlas_utilisation])
    if not ctx.check(stored == values(list(out.value)), name + "stored", "refining returned another solution than the calibrator holds"):
        return False
    if enough:
        fit = huber(got, deg)
        worst = float(np.max(np.abs(fit - np.array([W.polyval(coef, p) for p, _ in got]))))
        scale = float(np.max(np.abs(fit - np.array([v for _, v in got]))))
        SIM.probe("exact" if scale < 1e-6 else "noisy")
        if not ctx.check(worst <= EXACT + 0.01 * scale, name + "fit", lambda: "the coefficients are up to %g away from the fit of %d pairs with degree %d, which leaves up to %g" % (worst, len(got), deg, scale)):
            return False
    SIM.note(digest(values(list(out.value))))
    return True
