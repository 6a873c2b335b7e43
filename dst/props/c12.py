"""C12: data handed in by the caller is never modified (nor what it was given back)."""

import numpy as np

from .. import script as S, trace, world as W
from ..core import Ctx, SIM, Quiet, attempt, begin, bounded, canon, digest, end, values, rng_state
from ..disk import SimDisk, REAL

EXC = ["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError"]
FORMS = ["list", "array", "array", "view", "ro", "int", "tuple"]


def form(rng, avoid=()):
    return rng.choice([f for f in FORMS if f not in avoid])


def shape(v, how):
    """The same numbers, as the caller might hold them."""
    if how == "list":
        return [float(t) for t in v]
    if how == "tuple":
        return tuple(float(t) for t in v)
    if how == "int":
        return np.array([int(round(t)) for t in v])
    if how == "view":
        big = np.full(2 * len(v) + 2, -7.0)
        big[1:-1:2] = np.array(list(v), dtype=float)
        return big[1:-1:2]
    a = np.array([float(t) for t in v])
    if how == "ro":
        a.flags.writeable = False
    return a


def gen_op(rng, w):
    r = rng.random()
    ps = sorted(rng.sample(w["pairs"], rng.randint(max(1, len(w["pairs"]) - 3), len(w["pairs"]))))
    if rng.random() < 0.2:
        rng.shuffle(ps)
    ls = W.lines_of(w)
    if rng.random() < 0.1:
        return {"op": "query", "what": rng.choice(["get_lines", "get_lines", "get_elements", "get_intensities"])}
    if rng.random() < 0.07:
        return rng.choice([{"op": "atlas_remove", "w": rng.choice(ls), "tol": 1.0, "via": rng.choice(["atlas", "cal"])},
                           {"op": "atlas_swap", "w": rng.choice(ls), "tol": 0.5, "by": 9.0}])
    if r < 0.18:
        f = S.g_fit(rng, w)
        if rng.random() < 0.35:
            f["guess"] = form(rng, ("tuple", "int"))
        return f
    if r < 0.32:
        m = S.g_match(rng, w)
        m["args"].pop("fit_coeff", None)
        m["guess"] = rng.choice([None, None, "held", "array", "array", "ro", "list", "view"])
        if rng.random() < 0.15:
            m["args"]["refine"] = True
            m["args"]["n_delta"] = rng.choice([None, 1, 2])
        return m
    if r < 0.46:
        a = {"op": "refit", "as": form(rng), "pairs": ps, "degree": rng.randint(1, 2)}
        a["x0"] = rng.choice([None, "list", "list"])
        if rng.random() < 0.4:
            a["pairs"] = None
            if rng.random() < 0.6:  # starts from the coefficients held
                a.update(degree=None, x0=None)
        return a
    if r < 0.54:
        return S.g_pair(rng, w)
    if r < 0.6:
        n = rng.choice([0, 1, 2, len(w["pairs"])])
        return {"op": "known", "as": form(rng), "pairs": w["pairs"][:n]}
    if r < 0.68:
        return {"op": "user", "as": form(rng), "els": rng.choice(["list", "array", "tuple"]), "int": rng.choice([None, "list", "array"]),
                "vac": rng.random() < 0.4, "w": sorted(round(rng.choice(ls) + rng.uniform(-60, 60), 3) for _ in range(rng.randint(1, 3))), "via": rng.choice(["atlas", "cal"])}
    if r < 0.72:
        return rng.choice([S.g_hough, S.g_ransac])(rng, w)
    if r < 0.76:
        return {"op": "pixels", "as": form(rng), "n": w["npix"] + rng.choice([0, 0, 20])}
    if r < 0.81:
        return {"op": "transform", "brute": rng.random() < 0.3}
    if r < 0.84:
        return {"op": "hough_direct", "as": form(rng, ("list", "tuple")), "brute": rng.random() < 0.5, "shuffle": rng.randrange(100)}
    if r < 0.86:
        return {"op": "points", "points": [[rng.uniform(1, 4), rng.uniform(3000, 5000)] for _ in range(3)], "as": rng.choice(["array", "ro", "object"])}
    if r < 0.9:
        return {"op": "helpers", "as": form(rng, ("list", "tuple")), "seed": rng.randrange(1000)}
    if r < 0.92:
        return {"op": "robust", "as": form(rng, ("list", "tuple")), "pairs": ps, "x0": rng.choice([None, "list", "array", "ro", "int"]), "deg": rng.randint(1, 2)}
    if r < 0.95:
        return {"op": "refine", "as": form(rng), "pas": form(rng)}
    if r < 0.97:
        return {"op": "synthetic", "as": form(rng, ("tuple",)), "was": form(rng, ("tuple",)), "deg": rng.choice([1, 2])}
    if r < 0.985:
        return {"op": "list_add", "seed": rng.randrange(1000), "mi": rng.choice([None, "list", "array"])}
    return {"op": "save_mem", "fmt": rng.choice(["npy", "json", "npy+json"])}


def gen(rng, tier):
    w = S.gen_small(rng, kinds=("clean", "clean", "noisy", "grid"))
    S.easy(w, rng)
    ops = [dict(S.g_fit(rng, w), over={"fit_tolerance": 20.0})]
    for _ in range(rng.randint(3, 8)):
        ops.append(gen_op(rng, w))
    out = []
    for op in ops:
        e = {"op": op}
        r = rng.random()
        if r < 0.2:
            e["solver"] = {
                "site": rng.choice(["least_squares", "polyfit", "curve_fit", "minimize", "insert", "delete"]), "nth": rng.randrange(3),
                "exc": rng.choice(["LinAlgError", "ValueError", "RuntimeError", "MemoryError"]), "repeat": rng.choice([1, -1]),
            }
        elif r < 0.36:
            e["cut"] = {"pos": trace.gen_pos(rng), "exc": rng.choice(EXC)}
        out.append(e)
    return {
        "world": w, "ops": out, "peaks": form(rng), "spectrum": rng.choice([None, "list", "array", "view", "ro", "int"]),
        "spoil": rng.random() < 0.5, "tail": [S.g_fit(rng, w), S.g_match(rng, w), {"op": "pairs"}],
    }


class Holder:
    """Everything the caller holds, and how it looked when it was handed over."""

    def __init__(self):
        self.items = []

    def look(self, o):
        from rascal.atlas import Atlas
        from rascal.houghtransform import HoughTransform

        if isinstance(o, Atlas):
            return S.atlas_state(o)
        if isinstance(o, HoughTransform):
            return digest(values([o.hough_points, o.hist, o.xedges, o.yedges, o.hough_lines, o.min_slope, o.max_slope]))
        if isinstance(o, np.ndarray) and o.base is not None and isinstance(o.base, np.ndarray):
            return [canon(o), canon(o.base)]
        return canon(o)

    def keep(self, name, o):
        if o is not None:
            self.items.append([name, o, self.look(o)])
        return o

    def again(self, o):
        for it in self.items:
            if it[1] is o:
                it[2] = self.look(o)

    def spoiled(self):
        return [n for n, o, d in self.items if self.look(o) != d]


class Env(S.Env):
    def __init__(self, plan):
        from rascal.calibrator import Calibrator

        w = plan["world"]
        self.w, self.tag, self.rng = w, "", rng_state
        self.plan = plan
        self.held = Holder()
        self.mine = []  # what the caller may change afterwards
        self.atlas = {"a": self.held.keep("atlas", W.make_atlas(w))}
        self.peaks = self.give("peaks", shape(W.peaks_of(w), plan["peaks"]))
        y = S.make_spectrum(w) * 10
        self.spectrum = None if plan["spectrum"] is None else self.give("spectrum", shape(y, plan["spectrum"]))
        self.c = Calibrator(self.peaks, spectrum=self.spectrum)
        self.c.set_calibrator_properties(**{k: (np.arange(v) if k == "pixel_list" else v) for k, v in w["cal"].items()})
        self.c.set_hough_properties(**w["hough"])
        self.c.set_ransac_properties(**w["ransac"])
        self.c.set_atlas(self.atlas["a"], **w["atlas"])

    def give(self, name, o):
        if isinstance(o, (list, np.ndarray)):
            self.mine.append(o)
        return self.held.keep(name, o)


def arc_list(env, seed):
    import random

    r = random.Random(seed)
    rows = ["%s,%.3f,%.1f" % (r.choice(["He", "Ne"]), 4000 + 13 * i + r.uniform(0, 9), r.uniform(3, 90)) for i in range(8)]
    path = SIM.disk.path("lines.csv")
    with REAL["open"](path, "w") as f:
        f.write("# x\n" + "\n".join(rows) + "\n")
    return path


def perform(env, op):
    c, k, give = env.c, op["op"], env.give
    import rascal.util as U

    if k == "fit":
        rng_state(op["seed"])
        args = W.fit_args(env.w, **op.get("over", {}))
        if op.get("guess"):
            args["fit_coeff"] = give("starting coefficients", shape(S.truth_coef(env.w), op["guess"]))
        return c.fit(**args)
    if k == "match":
        a = dict(op["args"])
        if op.get("guess"):
            g = c.fit_coeff if op["guess"] == "held" else shape(S.truth_coef(env.w), op["guess"])
            a["fit_coeff"] = env.held.keep("coefficients to match", g)
        return c.match_peaks(**a)
    if k == "refit":
        a = {} if op["degree"] is None else {"degree": op["degree"]}
        if op["pairs"] is not None:
            a["matched_peaks"] = give("pixels to refit", shape([p for p, _ in op["pairs"]], op["as"]))
            a["matched_atlas"] = give("wavelengths to refit", shape([v for _, v in op["pairs"]], op["as"]))
        if op["x0"]:
            a["x0"] = give("starting coefficients", S.truth_coef(env.w, op["degree"]))
        return c.manual_refit(**a)
    if k == "known":
        return c.set_known_pairs(
            give("known pixels", shape([p for p, _ in op["pairs"]], op["as"])),
            give("known wavelengths", shape([v for _, v in op["pairs"]], op["as"])),
        )
    if k == "user":
        els = ["U%d" % (i % 2) for i in range(len(op["w"]))]
        els = tuple(els) if op["els"] == "tuple" else np.array(els, dtype=object) if op["els"] == "array" else els
        inten = None if op["int"] is None else shape([5.0 + i for i in range(len(op["w"]))], op["int"])
        t = c if op["via"] == "cal" else env.atlas["a"]
        kw = dict(env.w["atlas"]) if t is c else {}
        try:
            return t.add_user_atlas(give("elements", els), give("user lines", shape(op["w"], op["as"])), give("intensities", inten), vacuum=op["vac"], **kw)
        finally:
            env.held.again(env.atlas["a"])  # which this is meant to change
    if k == "query":
        return getattr(c.atlas, op["what"])()
    if k in ("atlas_remove", "atlas_swap"):
        try:
            return S.do(env, op)
        finally:
            env.held.again(env.atlas["a"])  # which this is meant to change
    if k == "pixels":
        return c.set_calibrator_properties(pixel_list=give("pixel list", shape(range(op["n"]), op["as"])))
    if k == "hough_direct":
        from rascal.houghtransform import HoughTransform

        h = HoughTransform()
        h.set_constraints(0.5, 6.0, 2500.0, 6000.0)
        ps = list(env.w["pairs"])
        import random

        random.Random(op["shuffle"]).shuffle(ps)
        x, y = give("x", shape([p for p, _ in ps], op["as"])), give("y", shape([v for _, v in ps], op["as"]))
        h.generate_hough_points_brute_force(x, y) if op["brute"] else h.generate_hough_points(x, y, 20)
        h.bin_hough_points(6, 6)
        return None
    if k == "points":
        pts = np.array(op["points"])
        if op["as"] == "object":
            from rascal.houghtransform import HoughTransform

            h = HoughTransform()
            h.hough_points = pts
            env.held.keep("transform to add", h)
            return c.ht.add_hough_points(h)
        if op["as"] == "ro":
            pts.flags.writeable = False
        return c.ht.add_hough_points(give("points to add", pts))
    if k == "helpers":
        import random

        r = random.Random(op["seed"])
        ls = give("wavelengths", shape(sorted(W.lines_of(env.w)), op["as"]))
        U.filter_separation(ls, r.choice([0, 5]))
        U.vacuum_to_air_wavelength(ls)
        U.air_to_vacuum_wavelength(ls)
        els = give("elements", ["He", "Ne"])
        lines = [[r.choice(els), "%.3f" % v, "%.1f" % r.uniform(1, 50)] for v in ls]
        arr = give("table of lines", np.array(lines))
        mi = give("intensity limits", r.choice([[5.0, 20.0], np.array([5.0, 20.0])]))
        return [U.filter_wavelengths(arr, 3000, 4800).tolist(), U.filter_intensity(els, arr, mi)]
    if k == "robust":
        from rascal import models

        x0 = None if op["x0"] is None else give("starting coefficients", shape(S.truth_coef(env.w, op["deg"]), op["x0"]))
        return models.robust_polyfit(
            give("x", shape([p for p, _ in op["pairs"]], op["as"])), give("y", shape([v for _, v in op["pairs"]], op["as"])), op["deg"], x0
        )
    if k == "refine":
        return U.refine_peaks(
            give("spectrum to refine in", shape(S.make_spectrum(env.w) * 10, op["as"])),
            give("peaks to refine", shape([round(p) for p in W.peaks_of(env.w)], op["pas"])), window_width=6,
        )
    if k == "synthetic":
        from rascal.synthetic import SyntheticSpectrum

        co = S.truth_coef(env.w, op["deg"])
        # the model expects the highest order first beyond the linear case
        co = shape(co if op["deg"] == 1 else co[::-1], op["as"])
        s = getattr(env, "generator", None)
        if s is None:
            s = env.generator = SyntheticSpectrum(give("model coefficients", co), 3000.0, 9000.0)
        else:
            s.set_model(give("model coefficients", co))
        return s.get_pixels(give("wavelengths to place", shape(W.lines_of(env.w)[:3], op["was"])))
    if k == "list_add":
        mi = {"list": [4.0, 9.0], "array": np.array([4.0, 9.0]), None: None}[op["mi"]]
        els = give("elements", ["He", "Ne"])
        a = {} if mi is None else {"min_intensity": give("intensity limits", mi)}
        out = U.load_calibration_lines(els, linelist=arc_list(env, op["seed"]), min_atlas_wavelength=3000, max_atlas_wavelength=9000, **a)
        return out
    if k in ("pair_add", "pair_remove", "pairs", "hough", "ransac", "transform", "save_mem"):
        return S.do(env, op)
    raise ValueError(k)


def execute(plan):
    ctx = Ctx()
    if not W.valid(plan["world"]):
        return ctx
    begin(0)
    SIM.disk = SimDisk()
    SIM.disk.op_log = False
    try:
        _run(ctx, plan)
    finally:
        end()
    return ctx


def do(ctx, env, op):
    with Quiet():
        return bounded(ctx, lambda: perform(env, op), draws=1500, solves=60)


def _run(ctx, plan):
    env = attempt(lambda: Env(plan))
    if not env.ok:
        ctx.mark("refused", env.brief())
        SIM.probe("construct:" + env.brief())
        return
    env = env.value
    done = []
    first = env.held.spoiled()
    if not ctx.check(not first, "setup:" + "+".join(first), "setting the calibrator up changed " + ", ".join(first)):
        return
    for e in plan["ops"]:
        op = e["op"]
        k = op["op"]
        cut = None
        if "cut" in e:
            twin = Env(plan)
            for d in done:
                do(ctx, twin, d["op"])
            _, ref = trace.reference(lambda: do(ctx, twin, op))
            cut = trace.Tracer(at=trace.resolve(e["cut"]["pos"], ref), exc=e["cut"]["exc"])
        SIM.solver_calls = {}
        SIM.solver_faults = [e["solver"]] if "solver" in e else []
        out = cut.run(lambda: do(ctx, env, op)) if cut else do(ctx, env, op)
        SIM.solver_faults = []
        done.append(e)
        ctx.steps += 1
        how = "stuck" if out is None else "done" if out.ok else "interrupted" if cut and cut.fired else "failed"
        SIM.probe("%s:%s" % (k, how))
        ctx.nontrivial = True
        ctx.mark(k, how, None if out is None else out.brief())
        bad = env.held.spoiled()
        if not ctx.check(
            not bad, "%s:%s:%s" % (how, k, "+".join(sorted(set(bad)))),
            lambda: "%s, which %s (%r), changed what the caller holds: %s" % (k, how, out, ", ".join(bad)),
        ):
            return
        if out is not None and out.ok and out.value is not None:
            env.held.keep("what %s returned" % k, out.value)
    if not plan["spoil"]:
        return
    # the caller goes on to use its own arrays for something else
    a, b = Env(plan), Env(plan)
    for e in plan["ops"]:
        if "cut" in e:
            continue
        for x in (a, b):
            SIM.solver_calls = {}
            SIM.solver_faults = [e["solver"]] if "solver" in e else []
            do(ctx, x, e["op"])
            SIM.solver_faults = []
    for o in b.mine:
        if isinstance(o, list):
            o[:] = [o[0] if isinstance(o[0], str) else 1e6 for _ in o] if o else o
        elif isinstance(o, np.ndarray) and o.flags.writeable and o.dtype.kind in "fi" and o.size:
            o[...] = 1000000
    SIM.probe("spoilt")
    sa, sb = S.state(a.c), S.state(b.c)
    d = S.diff(sa, sb)
    if not ctx.check(not d, "alias:" + "+".join(d[:3]), lambda: "the caller changed arrays it had passed in, and the calibrator's %s changed" % ", ".join(d)):
        return
    for op in plan["tail"]:
        with Quiet():
            x = bounded(ctx, lambda: S.do(a, op), draws=1500, solves=60)
            y = bounded(ctx, lambda: S.do(b, op), draws=1500, solves=60)
        if x is None or y is None:
            ctx.check(x is y, "alias:stuck", "only one of two %s ended" % op["op"])
            return
        d = S.diff(S.state(a.c), S.state(b.c))
        ctx.mark("then", op["op"], y.brief(), digest(values(y.value)))
        if not ctx.check(
            x.brief() == y.brief() and values(x.value) == values(y.value) and not d, "alias:then:" + op["op"],
            lambda: "the caller changed arrays it had passed in, and %s gave %r instead of %r (%s)" % (op["op"], y, x, d),
        ):
            return
