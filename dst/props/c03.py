"""C03: every fit finishes within bounded work."""

import math

import numpy as np

from .. import adversary, world as W
from ..core import Ctx, SIM, attempt, begin, end, rng_state, Quiet, SimStuck

ALARM = 25

REASONS = [
    "free", "intercept", "monotonic", "min_error", "min_matches", "min_util",
    "solver", "solver_poly", "known", "few_candidates", "tiny_tolerance", "duplicates",
]


def gen(rng, tier):
    why = rng.choice(REASONS)
    brute = rng.random() < 0.3
    deg = rng.choice([1, 2, 2, 3])
    n = rng.randint(4, 6) if brute else rng.randint(5, 11)
    w = W.gen_world(rng, deg=deg, n=n)
    w["ransac"]["sample_size"] = rng.choice([deg + 1, deg + 2, 5, 12])
    if brute:
        w["decoys"] = w["decoys"][:2]
        w["ransac"]["sample_size"] = deg + 1
        w["ransac"]["top_n_candidate"] = rng.choice([1, 2, 3])
    w["fit"]["max_tries"] = rng.choice([1, 1, 2])
    faults, known = [], None
    r = w["ransac"]
    if why == "intercept":
        d = rng.choice([-1, 1]) * rng.uniform(1.0, 1.6) * w["hough"]["range_tolerance"]
        w["hough"]["min_wavelength"] += round(d, 1)
    elif why == "monotonic":
        known = [[w["npix"] * 1.15, 0.0], [100.0, 200.0]][: rng.randint(1, 2)]
    elif why == "min_error":
        r["minimum_fit_error"] = 1e6
    elif why == "min_matches":
        r["minimum_matches"] = 500
    elif why == "min_util":
        r["minimum_peak_utilisation"] = 1.0
        w["strays"].append(2.5)
    elif why == "solver":
        faults = [{"site": "least_squares", "nth": rng.choice([0, 0, 3]), "exc": "LinAlgError", "repeat": -1}]
    elif why == "solver_poly":
        faults = [{"site": s, "nth": rng.choice([0, 2]), "exc": "LinAlgError", "repeat": -1} for s in ("polyfit", "legfit", "chebfit")]
    elif why == "known":
        known = [[rng.uniform(0, w["npix"]), rng.uniform(1000, 9000)]]
    elif why == "few_candidates":
        w["fit"]["candidate_tolerance"] = rng.choice([1e-9, 0.05])
    elif why == "tiny_tolerance":
        r["ransac_tolerance"] = 1e-12
    elif why == "duplicates":
        w["decoys"] += [v for _, v in w["pairs"]]
    if known is None and w["pairs"] and rng.random() < 0.3:
        # pairs that are true, or a line of the atlas at another pixel
        known = [list(rng.choice(w["pairs"])) for _ in range(rng.randint(1, 3))]
        known = [list(t) for t in dict((p, v) for p, v in known).items()]
        if rng.random() < 0.2:
            known[0][0] += rng.choice([0.3, 2.0])
        if rng.random() < 0.5:
            r["top_n_candidate"] = rng.choice([1, 1, 2])
    # exhaustive search by another route: as many samples as peaks
    if not brute and rng.random() < 0.15:
        r["sample_size"] = n + rng.randint(0, 3)
        w["decoys"] = w["decoys"][:1]
        r["top_n_candidate"] = 1
    return {
        "world": w,
        "why": why,
        "brute": brute,
        "known": known,
        "faults": faults,
        "seed": rng.randrange(1 << 30),
        "adv": adversary.gen(rng, w["pairs"]),
        "progress": rng.random() < 0.1,
        "again": rng.random() < 0.3,
    }


class Solved:
    def __init__(self, x):
        self.x = x
        self.success = True
        self.status = 1
        self.cost = 0.0
        self.message = "simulated"


def quick_solver(fun, x0, *args, **kwargs):
    """Stands in for the robust solver: the same optimum for inliers, fast."""
    a = kwargs.get("args", ())
    f0 = np.asarray(fun(np.zeros(len(x0)), *a), dtype=float)
    cols = [
        np.asarray(fun(np.eye(len(x0))[i], *a), dtype=float) - f0
        for i in range(len(x0))
    ]
    x = np.linalg.lstsq(np.stack(cols, 1), -f0, rcond=None)[0]
    return Solved(x)


def execute(plan):
    ctx = Ctx()
    w = plan["world"]
    if not W.valid(w):
        return ctx
    begin(0)
    try:
        _run(ctx, plan, w)
    finally:
        end()
    return ctx


def _run(ctx, plan, w):
    c = W.make_calibrator(w)
    if plan["known"]:
        c.set_known_pairs([p for p, _ in plan["known"]], [v for _, v in plan["known"]])
    n = len(W.peaks_of(w))
    nl = len(W.lines_of(w))
    m = n * min(nl, w["ransac"]["top_n_candidate"])
    k = max(min(w["ransac"]["sample_size"], nl), w["fit"]["fit_deg"] + 1)
    combos = math.comb(m, k) if k <= m else 1
    if plan["brute"]:
        draws = 1000
        fits = combos + 10
        if combos > 6000:
            return
    elif k >= n:
        # sampling all peaks: one try per combination (documented as brute force)
        if combos > 12:
            return
        draws = combos * (k * k + 2 * k + 4) * 1500 + 3000
        fits = combos * 1500 + 3000
    else:
        draws = w["fit"]["max_tries"] * (k * k + 2 * k + 4) * 1500 + 3000
        fits = w["fit"]["max_tries"] * 1500 + 3000
    if plan["why"] != "free":
        SIM.solver_stub = {"least_squares": quick_solver}
    for rep in range(2 if plan["again"] else 1):
        rng_state(plan["seed"] + rep)
        adversary.install(plan["adv"])
        SIM.solver_calls = {}
        SIM.solver_faults = plan["faults"]
        SIM.draws = 0
        SIM.draw_budget = draws
        SIM.solver_budget = {s: fits for s in ("polyfit", "legfit", "chebfit", "least_squares")}
        args = W.fit_args(w, brute_force=plan["brute"], progress=plan["progress"])
        try:
            with Quiet():
                out = attempt(lambda: c.fit(**args))
        except SimStuck as e:
            cp = getattr(c, "candidate_peak", None)
            if not plan["brute"] and cp is not None and len(np.unique(cp)) <= k:
                # as many peaks are sampled as have candidates: one try per
                # combination of candidates (documented as brute force)
                if math.comb(len(cp), k) > w["fit"]["max_tries"]:
                    ctx.stuck += 1
                    SIM.probe("exhaustive-by-sample-size")
                    return
            ctx.nontrivial = True
            ctx.bad(
                "unbounded:%s:%s" % (plan["why"], "brute" if plan["brute"] else "random"),
                "still running after %s (%d tries asked for)" % (e, w["fit"]["max_tries"]),
            )
            return
        finally:
            SIM.draw_budget = None
            SIM.solver_budget = None
            SIM.adversary = None
            SIM.solver_faults = []
        nfit = sum(SIM.solver_calls.get(s, 0) for s in ("polyfit", "legfit", "chebfit"))
        ctx.steps += SIM.draws + sum(SIM.solver_calls.values())
        SIM.note("fit", plan["why"], out.brief(), SIM.draws, nfit)
        ctx.mark(plan["why"], plan["brute"], out.brief(), SIM.draws, nfit)
        SIM.probe("ended:" + ("ok" if out.ok else out.brief()))
        if nfit > 5:
            SIM.probe("rejecting:" + plan["why"] if not out.ok else "solved:" + plan["why"])
        if nfit > 900 and not plan["brute"]:
            SIM.probe("hundreds-of-redraws")
        ctx.nontrivial = ctx.nontrivial or nfit > 3 or plan["brute"]
        legal = (
            out.ok
            or isinstance(out.exc, AssertionError)
            or (plan["faults"] and isinstance(out.exc, np.linalg.LinAlgError))
        )
        ctx.check(legal, "crash:" + out.brief(), repr(out))
