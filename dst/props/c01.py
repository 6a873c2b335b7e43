"""C01: a calibration result is a one-to-one match of real peaks to real lines."""

import numpy as np

from .. import adversary, world as W, oracle as O
from ..core import Ctx, SIM, bounded, begin, end, rng_state, values, digest

RULE = (
    "one run = a generated world and a history of fits, atlas edits and setting "
    "changes on one calibrator, under a hostile or fair draw sequence and "
    "transient solver failures; non-trivial if at least one fit returned a "
    "solution; distinct by the sequence of operation outcomes, accepted matches "
    "and fault kinds"
)
REAL = "rascal (all of calibrator, atlas, hough, models), numpy, scipy"
STUB = "numpy.random.choice outcomes (adversary), solver failures, clock"


def gen_faults(rng, nsolve=60):
    fs = []
    if rng.random() < 0.45:
        for _ in range(rng.randint(1, 3)):
            fs.append(
                {
                    "site": rng.choice(["least_squares", "least_squares", "least_squares", "polyfit"]),
                    "nth": rng.randrange(0, rng.choice([3, 12, nsolve])),
                    "exc": "LinAlgError",
                    "repeat": rng.choice([1, 1, 1, 2, 5]),
                }
            )
    return fs


def gen(rng, tier):
    w = W.gen_world(rng)
    truth = w["pairs"]
    if not w["strays"] and rng.random() < 0.2:
        # the experimental non-linear search needs as many lines as peaks
        w["decoys"] = []
        w["ransac"]["linear"] = False
        w["peaks_as"] = "array"
    ops = []
    for i in range(rng.randint(1, 4)):
        if i and rng.random() < 0.55:
            k = rng.random()
            ls = W.lines_of(w)
            if k < 0.2:
                # as many lines as before, but others
                v = rng.choice(ls)
                ops.append({"op": "remove", "w": v, "tol": 0.01})
                ops.append({"op": "add", "w": [round(v + rng.choice([-30.0, -4.0, 6.0, 50.0]), 3)]})
            elif k < 0.4:
                ops.append({"op": "remove", "w": rng.choice(ls), "tol": rng.choice([0.5, 5.0, 30.0])})
            elif k < 0.65:
                ops.append({"op": "add", "w": [round(rng.choice(ls) + rng.uniform(-80, 80), 3) for _ in range(rng.randint(1, 3))]})
            elif k < 0.85:
                ops.append({"op": "ransac", "args": rng.choice([
                    {"ransac_tolerance": rng.choice([0.5, 2.0, 8.0])},
                    {"minimum_matches": rng.randint(1, 12)},
                    {"minimum_peak_utilisation": round(rng.random(), 2)},
                    {"minimum_fit_error": rng.choice([0.0, 0.01, 0.3])},
                    {"sample_size": rng.randint(3, 8)},
                ])})
            else:
                p, wv = rng.choice(truth) if truth else (10.0, 4000.0)
                ops.append({"op": "known", "pix": [p], "wave": [wv]})
        over = {}
        if i and rng.random() < 0.4:
            over["fit_deg"] = rng.randint(1, 4)
        if rng.random() < 0.15 or w["ransac"].get("linear") is False:
            # a starting solution; its degree is the one of the fit
            d = over.get("fit_deg", w["deg"])
            g = (w["coef"] + [0.0] * 5)[: d + 1]
            over["fit_coeff"] = [g[0] + rng.uniform(-15, 15)] + g[1:]
            over["fit_type"] = "poly"
            if rng.random() < 0.3:
                over["fit_deg"] = rng.randint(1, 4)
        ops.append(
            {
                "op": "fit",
                "seed": rng.randrange(1 << 30),
                "adv": adversary.gen(rng, truth),
                "faults": gen_faults(rng),
                "over": over,
            }
        )
    return {"world": w, "ops": ops}


def execute(plan):
    ctx = Ctx()
    w = plan["world"]
    if not W.valid(w):
        return ctx
    begin(0)
    try:
        _run(ctx, plan, w)
    finally:
        end()
    return ctx


def _run(ctx, plan, w):
    atlas = W.make_atlas(w)
    lines = W.lines_of(w)
    peaks = W.peaks_of(w)
    c = W.make_calibrator(w, atlas)
    ransac = dict(w["ransac"])
    for op in plan["ops"]:
        k = op["op"]
        if k == "remove":
            left = [v for v in lines if not abs(v - op["w"]) < op["tol"]]
            if len(left) < 2:
                continue
            atlas.remove_atlas_lines_range(op["w"], op["tol"])
            lines = left
        elif k == "add":
            atlas.add_user_atlas(["U"] * len(op["w"]), list(op["w"]))
            lines = lines + list(op["w"])
        elif k == "ransac":
            c.set_ransac_properties(**op["args"])
            ransac.update(op["args"])
        elif k == "known":
            c.set_known_pairs(op["pix"], op["wave"])
        else:
            _fit(ctx, c, w, op, peaks, lines, ransac)
            if ctx.violations:
                return


def _fit(ctx, c, w, op, peaks, lines, ransac):
    rng_state(op["seed"])
    adversary.install(op.get("adv"))
    SIM.solver_calls = {}
    SIM.solver_faults = op.get("faults", [])
    hyps = []

    def hook(site, args, kwargs, out):
        if site in ("polyfit", "legfit", "chebfit"):
            hyps.append((site, np.array(out, dtype=float)))

    SIM.solver_result_hook = hook
    args = W.fit_args(w, **op.get("over", {}))
    deg = args["fit_deg"]
    if args.get("fit_coeff") is not None:
        deg = len(args["fit_coeff"]) - 1
    before = dict(SIM.fired)
    out = bounded(ctx, lambda: c.fit(**args), draws=2500, solves=120)
    SIM.solver_result_hook = None
    SIM.adversary = None
    SIM.solver_faults = []
    if out is None:
        ctx.mark("stuck")
        return
    fired = SIM.fired.get("solver:LinAlgError", 0) - before.get("solver:LinAlgError", 0)
    ctx.steps += sum(SIM.solver_calls.values())
    SIM.note("fit", out.brief(), len(hyps), SIM.draws, digest(values(out.value)))
    if not out.ok:
        ctx.mark("fit", out.brief(), fired)
        legal = isinstance(out.exc, AssertionError) or (
            fired and isinstance(out.exc, np.linalg.LinAlgError)
        )
        if w["ransac"].get("linear") is False and len(lines) != len(peaks):
            legal = legal or isinstance(out.exc, ValueError)
        ctx.check(legal, "fit:crash:" + out.brief(), repr(out))
        return
    ctx.nontrivial = True
    SIM.probe("fit-ok")
    if fired:
        SIM.probe("fit-ok-despite-solver-failure")
    ctx.mark("fit", "ok", fired, len(out.value[1]), digest(values(out.value[2])))
    h = w["hough"]
    O.check_fit_result(
        ctx,
        out.value,
        c,
        peaks,
        lines,
        deg,
        ransac["ransac_tolerance"],
        ransac.get("minimum_matches", 0),
        ransac.get("minimum_peak_utilisation", 0.0),
        ransac.get("minimum_fit_error", 0.0),
        hyps,
        start=(h["min_wavelength"] - h["range_tolerance"], h["min_wavelength"] + h["range_tolerance"]),
    )
