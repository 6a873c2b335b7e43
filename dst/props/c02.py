"""C02: the correct solution is never lost once the search has drawn it."""

import numpy as np

from .. import adversary, world as W, oracle as O
from ..core import Ctx, SIM, bounded, begin, end, rng_state, values, digest


def gen(rng, tier):
    brute = rng.random() < 0.12
    kind = "clean"
    deg = rng.choice([1, 1, 2]) if brute else rng.choice([1, 2, 2, 3, 4])
    n = rng.randint(deg + 4, deg + 5) if brute else rng.randint(deg + 5, deg + 10)
    w = W.gen_world(rng, kind=kind, deg=deg, n=n)
    n = len(w["pairs"])
    if brute:
        w["decoys"] = w["decoys"][:1]
    else:
        for _ in range(rng.randint(0, 5)):
            p, wave = rng.choice(w["pairs"])
            d = wave + rng.choice([-1, 1]) * rng.choice([0.6, 2.0, 4.0, 9.0, 15.0])
            w["decoys"].append(d)
    w["atlas"] = {"candidate_tolerance": 10.0, "constrain_poly": False}
    k = deg + 1 + rng.choice([0, 0, 1, 2])
    tol = rng.choice([0.5, 1.0, 5.0])
    w["ransac"] = {
        "sample_size": min(k, n - 1) if not brute else deg + 1,
        "top_n_candidate": 60,
        "filter_close": False,
        "ransac_tolerance": tol,
        "candidate_weighted": rng.random() < 0.7,
        "hough_weight": rng.choice([0.0, 1.0, 1.0, 10.0, 1000.0]),
        "minimum_fit_error": 0.0,
    }
    # without a minimum, an exact fit of deg + 1 wrong pairs is as good as any
    w["ransac"]["minimum_matches"] = rng.choice([n, deg + 2, rng.randint(deg + 2, n)])
    if rng.random() < 0.3:
        w["ransac"]["minimum_peak_utilisation"] = rng.choice([1.0, 0.5])
    tries = rng.choice([1, 2, 4, 8, 14])
    w["fit"] = {
        "max_tries": tries,
        "fit_deg": deg,
        "fit_tolerance": 5.0,
        "candidate_tolerance": rng.choice([10.0, 14.0]),
        "fit_type": rng.choice(["poly"] * 5 + ["legendre", "chebyshev"]),
    }
    if rng.random() < 0.2:
        # a starting solution, as good as any or not
        c0 = (w["coef"] + [0.0] * deg)[: deg + 1]
        w["fit"]["fit_coeff"] = [c0[0] + rng.choice([0.0, 1e-3, -1, 1]) * rng.uniform(2, 8)] + c0[1:]
        w["fit"]["fit_type"] = "poly"
        if deg > 1 and rng.random() < 0.4:
            # the degree is that of the starting solution
            w["fit"]["fit_deg"] = rng.randint(1, deg - 1)
            w["ransac"]["sample_size"] = w["fit"]["fit_deg"] + 1
    noisy = not brute and rng.random() < 0.4
    rival = noisy and rng.random() < 0.35
    if noisy:
        # measured lines: hypotheses that are to be rejected can be cheaper
        # than the true one, and every peak has to be matched
        tol = w["ransac"]["ransac_tolerance"] = rng.choice([0.5, 0.8, 1.5])
        sd = tol * rng.choice([0.05, 0.1, 0.2])
        if rival:
            # other lines agree exactly with another solution, but for some peaks
            sd = 0.2 * tol
            d = rng.choice([-1, 1]) * rng.uniform(2.5, 4) * tol
            out = rng.sample(range(n), rng.choice([1, 1, 2]))
            alt = [v + d for i, (_, v) in enumerate(w["pairs"]) if i not in out]
        for pr in w["pairs"]:
            pr[1] += rng.gauss(0, sd)
        for _ in range(rng.randint(0, 6)):
            p, wave = rng.choice(w["pairs"])
            w["decoys"].append(wave + rng.choice([-1, 1]) * rng.uniform(0.8, 3.0) * tol)
        if rival:
            w["decoys"] = alt
        elif rng.random() < 0.5:
            # many lines within a wide tolerance
            tol = w["ransac"]["ransac_tolerance"] = rng.choice([3.0, 5.0])
            lo, hi = w["pairs"][0][1], w["pairs"][-1][1]
            w["decoys"] = w["decoys"][:2] + [rng.uniform(lo, hi) for _ in range(rng.randint(6, 14))]
        w["ransac"].pop("minimum_matches", None)
        w["ransac"].pop("minimum_peak_utilisation", None)
        if rng.random() < 0.5:
            w["ransac"]["minimum_matches"] = n
        else:
            w["ransac"]["minimum_peak_utilisation"] = 1.0
        tries = w["fit"]["max_tries"] = rng.choice([4, 8, 14, 20])
    if not noisy and rng.random() < 0.4:
        true = [v for _, v in w["pairs"]]
        gap = min([abs(a - b) for i, a in enumerate(true) for b in true[:i] + w["decoys"]])
        w["ransac"]["filter_close"] = gap > 3 * tol + 0.01
    xm = ["low", "high", "cluster", "ends", "any", "fair"]
    ym = ["wrong", "near", "near", "any", "fair", "fair", "first", "last"]
    win = sorted({rng.randrange(tries) for _ in range(rng.choice([1, 1, 1, 2]))})
    if rng.random() < 0.25:
        win = [0]
    if rng.random() < 0.25:
        win = [tries - 1]
    if noisy and rng.random() < 0.6:
        win = sorted(rng.sample(range(tries), tries // 2))
    if rival:
        win = [rng.randrange(tries // 2, tries)]
        xm, ym = ["any", "ends", "fair"], ["near", "near", "near", "wrong"]
    adv = {
        "seed": rng.randrange(1 << 30),
        "x": [rng.choice(xm) for _ in range(rng.randint(1, 4))],
        "y": [rng.choice(ym) for _ in range(rng.randint(1, 5))],
        "win": win,
    }
    return {
        "world": w,
        "adv": adv,
        "brute": brute,
        "noisy": noisy,
        "seed": rng.randrange(1 << 30),
        "progress": rng.random() < 0.1,
        "warm": rng.random() < 0.3,
    }


def execute(plan):
    ctx = Ctx()
    w = plan["world"]
    if not W.valid(w) or len(w["pairs"]) < w["deg"] + 3 or w["strays"]:
        return ctx
    begin(0)
    try:
        _run(ctx, plan, w)
    finally:
        end()
    return ctx


def drawn_true(samples, truth, size):
    """How many complete samples consisted of true pairs only."""
    n = 0
    for xs, ys in samples:
        seen = []
        for y in ys:
            if y not in seen:
                seen.append(y)
        if len(xs) != size or len(seen) != size:
            continue
        if all(abs(truth.get(x, -1) - y) < 1e-9 for x, y in zip(xs, seen)):
            n += 1
    return n


def _run(ctx, plan, w):
    truth = {float(p): float(v) for p, v in w["pairs"]}
    c = W.make_calibrator(w)
    if plan.get("warm"):
        # the transform is made beforehand, as most users do
        c.do_hough_transform()
    adv = adversary.install(dict(plan["adv"], truth=w["pairs"]))
    if plan["brute"]:
        SIM.adversary = None
    rng_state(plan["seed"])
    args = W.fit_args(w, brute_force=plan["brute"], progress=plan["progress"])
    nh = [0]

    def hook(site, a, k, out):
        nh[0] += site in ("polyfit", "legfit", "chebfit")

    SIM.solver_result_hook = hook
    from ..core import Quiet

    with Quiet():
        out = bounded(ctx, lambda: c.fit(**args), draws=30000, solves=6000 if plan["brute"] else 500)
    SIM.solver_result_hook = None
    SIM.adversary = None
    if out is None:
        ctx.mark("stuck")
        return
    # is every true pair a candidate?  (lines the transform proposes)
    ct = args["candidate_tolerance"] - 1e-6
    hl = np.asarray(c.hough_lines, dtype=float)
    for p, v in truth.items():
        if not len(hl) or np.min(np.abs(hl[:, 0] * p + hl[:, 1] - v)) > ct:
            SIM.probe("true-pair-not-a-candidate")
            return
    if plan["brute"]:
        won = 1
    else:
        k = max(w["ransac"]["sample_size"], w["deg"] + 1)
        won = drawn_true(adv.samples, truth, k)
    if not won:
        SIM.probe("no-true-sample-drawn")
        return
    # is the truth itself inside what the user allowed?
    if not (
        c.min_intercept <= w["coef"][0] <= c.max_intercept
        if hasattr(c, "min_intercept")
        else True
    ):
        return
    ps = sorted(truth)
    lo, hi = ps[0] - 0.2 * (ps[-1] - ps[0]), ps[-1] + 0.2 * (ps[-1] - ps[0])
    if np.any(np.diff(O.PV(np.arange(lo, hi, 1.0), np.array(w["coef"]))) <= 1e-6):
        return
    if plan.get("noisy"):
        return _noisy(ctx, plan, w, c, out, adv, truth, hl, ct)
    ctx.nontrivial = True
    SIM.probe("won")
    ctx.mark(out.brief(), won, plan["brute"], nh[0], digest(values(out.value)))
    if not ctx.check(
        out.ok, "lost:" + out.brief(), "a true sample was drawn, the fit says %r" % out
    ):
        return
    coef, mp, ma = out.value[:3]
    got = {float(p): float(v) for p, v in zip(mp, ma)}
    ctx.check(
        got == truth,
        "lost:pairs",
        lambda: "a true sample was drawn; returned %d pairs, wrong: %s, missing: %s"
        % (
            len(got),
            sorted((p, v) for p, v in got.items() if truth.get(p) != v)[:4],
            sorted(set(truth) - set(got))[:4],
        ),
    )
    if ctx.violations:
        return
    x = np.linspace(ps[0], ps[-1], 60)
    d = np.abs(O.PV(x, np.asarray(coef)) - O.PV(x, np.array(w["coef"])))
    ctx.check(
        bool(np.max(d) < 0.5),
        "lost:polynomial",
        "true pairs but coefficients off by %.4g A" % float(np.max(d)),
    )


def _noisy(ctx, plan, w, c, out, adv, truth, hl, ct):
    """A drawn sample whose polynomial meets every condition is not lost."""
    ps = np.array(sorted(truth))
    lines = np.array(sorted(set(W.lines_of(w))))
    tol = w["ransac"]["ransac_tolerance"]
    cand = np.array([np.min(np.abs(hl[:, 0] * p + hl[:, 1] - lines[:, None]), axis=1) for p in ps])
    k = max(w["ransac"]["sample_size"], w["deg"] + 1)
    lo, hi = ps[0] - 0.2 * (ps[-1] - ps[0]), ps[-1] + 0.2 * (ps[-1] - ps[0])
    x = np.arange(lo, hi, 1.0)
    good = 0
    for xs, ys in adv.samples:
        ys = list(dict.fromkeys(ys))
        if len(xs) != k or len(ys) != k or any(truth.get(a) != b for a, b in zip(xs, ys)):
            continue
        q = np.polynomial.polynomial.polyfit(xs, ys, w["deg"])
        if not c.min_intercept + 1e-6 <= q[0] <= c.max_intercept - 1e-6 or np.any(np.diff(O.PV(x, q)) <= 1e-6):
            continue
        d = np.abs(O.PV(ps, q)[:, None] - lines[None, :])
        # the best candidate of each peak, whichever lines just miss being one
        best = set()
        ok = True
        for i in range(len(ps)):
            sure = np.where(cand[i] <= ct - 1e-3, d[i], np.inf)
            maybe = np.where(cand[i] <= ct + 1e-3, d[i], np.inf)
            j = int(np.argmin(sure))
            ok = ok and j == int(np.argmin(maybe)) and sure[j] < 0.98 * tol and j not in best
            best.add(j)
        good += ok
    if not good:
        SIM.probe("no-acceptable-sample-drawn")
        return
    ctx.nontrivial = True
    SIM.probe("won-noisy")
    ctx.mark("noisy", out.brief(), good, digest(values(out.value)))
    if not ctx.check(out.ok, "lost:noisy:" + out.brief(), "a sample of true pairs that matches every peak was drawn, the fit says %r" % out):
        return
    ctx.check(
        sorted(float(p) for p in out.value[1]) == [float(p) for p in ps], "lost:noisy:peaks",
        lambda: "every peak has to be matched, the fit returned %d of %d" % (len(out.value[1]), len(ps)),
    )
