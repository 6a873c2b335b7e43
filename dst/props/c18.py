"""C18: the last value given for each setting counts."""

import numpy as np

from .. import script as S, trace, world as W
from ..core import Ctx, SIM, Quiet, bounded, begin, bulk, digest, end, values

EXC = ["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError"]


EDGES = {  # nothing, and what is documented as the default, given as a value
    "min_wavelength": [3000.0, 3000], "max_wavelength": [9000.0, 9000], "range_tolerance": [500, 500.0, 0, 0.0], "linearity_tolerance": [100, 100.0, 0, 0.0],
    "sample_size": [5], "top_n_candidate": [5], "linear": [True], "filter_close": [False], "candidate_weighted": [True], "hough_weight": [1.0, 1, 0],
    "minimum_peak_utilisation": [0, 0.0, 1.0], "minimum_fit_error": [1e-4, 0], "ransac_tolerance": [5], "xbins": [100], "ybins": [100],
    "plotting_library": ["matplotlib"],
}


def subset(rng, d):
    ks = [k for k in d if rng.random() < rng.choice([0.2, 0.5, 0.9])]
    out = {k: d[k] for k in ks}
    few = rng.choice([0.0, 0.1, 0.4])
    for k in ks:
        if k in EDGES and rng.random() < few:
            out[k] = rng.choice(EDGES[k])
    if rng.random() < 0.15:  # left out by name
        for k in d:
            if k not in out and k != "log_level" and rng.random() < 0.5:
                out[k] = None
    return out


def g_cal(rng, w):
    d = {
        "num_pix": rng.choice([w["npix"], w["npix"] + 50]),
        "pixel_list": rng.choice([["arange", w["npix"]], ["arange", w["npix"] + 30], ["gap", w["npix"], 20], ["list", w["npix"]], ["from", w["npix"], 5]]),
        "plotting_library": rng.choice(["matplotlib", "plotly"]),
        "log_level": rng.choice(["critical", "error"]),
    }
    return subset(rng, d)


def g_hough(rng, w):
    h = w["hough"]
    return subset(rng, {
        "num_slopes": rng.choice([30, 50, h["num_slopes"]]), "xbins": rng.choice([6, 10, h["xbins"]]), "ybins": rng.choice([6, 10, h["ybins"]]),
        "min_wavelength": rng.choice([h["min_wavelength"], round(h["min_wavelength"] + rng.uniform(-40, 40), 2), int(h["min_wavelength"])]),
        "max_wavelength": rng.choice([h["max_wavelength"], round(h["max_wavelength"] + rng.uniform(-40, 40), 2)]),
        "range_tolerance": rng.choice([150, 200.0, h["range_tolerance"]]), "linearity_tolerance": rng.choice([40.0, 80, h["linearity_tolerance"]]),
    })


def g_ransac(rng, w):
    return subset(rng, {
        "sample_size": rng.randint(w["deg"] + 1, w["deg"] + 3), "top_n_candidate": rng.choice([1, 3, 5]), "linear": rng.random() < 0.8, "filter_close": rng.random() < 0.3,
        "ransac_tolerance": rng.choice([0.5, 2.0, 5]), "candidate_weighted": rng.random() < 0.6, "hough_weight": rng.choice([0.0, 0.5, 1, 2.0]),
        "minimum_matches": rng.randint(1, 5), "minimum_peak_utilisation": rng.choice([0.0, 0.1, 0.4]), "minimum_fit_error": rng.choice([0.0, 1e-12, 1e-5]),
    })


BAD = {
    "cal": [{"pixel_list": ["text"]}, {"pixel_list": ["empty"]}, {"pixel_list": ["nested"]}, {"log_level": "nonsense"}, {"log_level": 5}],
    "hough": [{"min_wavelength": "a"}, {"max_wavelength": "a"}, {"range_tolerance": "a"}, {"linearity_tolerance": "a"}],
    "ransac": [{"minimum_matches": -1}, {"minimum_matches": 0}, {"minimum_matches": "a"}, {"minimum_peak_utilisation": 1.5}, {"minimum_peak_utilisation": -0.1},
               {"minimum_peak_utilisation": "a"}, {"minimum_fit_error": -1e-9}, {"minimum_fit_error": "a"}],
}
DEFAULTS = {  # as documented
    "hough": {"min_wavelength": 3000.0, "max_wavelength": 9000.0, "range_tolerance": 500, "linearity_tolerance": 100},
    "ransac": {"sample_size": 5, "top_n_candidate": 5, "linear": True, "filter_close": False, "candidate_weighted": True, "hough_weight": 1.0,
               "minimum_matches": 0, "minimum_peak_utilisation": 0, "minimum_fit_error": 1e-4},
}
GOOD = {"cal": g_cal, "hough": g_hough, "ransac": g_ransac}


def g_atlas_args(rng):
    a = {}
    if rng.random() < 0.6:
        a["candidate_tolerance"] = rng.choice([3.0, 5.0, 12.0])
    if rng.random() < 0.4:
        a["constrain_poly"] = rng.random() < 0.6
    return a


def gen_step(rng, w):
    r = rng.random()
    ls = W.lines_of(w)
    if r < 0.6:
        k = rng.choice(["cal", "hough", "hough", "ransac", "ransac"])
        a = GOOD[k](rng, w)
        s = {"do": k, "args": a}
        if rng.random() < 0.25:
            s["bad"] = True
            s["args"] = dict(a, **rng.choice(BAD[k]))
            if rng.random() < 0.3:  # and in another order
                s["args"] = dict(reversed(list(s["args"].items())))
    elif r < 0.7:
        s = {"do": "set_atlas", "which": rng.choice("ab"), "args": g_atlas_args(rng)}
        if rng.random() < 0.2:
            s["bad"] = True
            s["which"] = rng.choice(["none", "object"])
    elif r < 0.76:
        s = {"do": "user", "w": [round(rng.choice(ls) + rng.uniform(-80, 80), 3) for _ in range(rng.randint(1, 3))], "via": rng.choice(["a", "b", "cal", "cal"]), "args": g_atlas_args(rng)}
        if rng.random() < 0.3:
            s["bad"] = True
    elif r < 0.82:
        s = {"do": "remove", "w": rng.choice(ls), "tol": rng.choice([0.5, 5.0, 60.0]), "via": rng.choice(["a", "b", "cal"])}
    elif r < 0.83:
        s = {"do": "clear", "via": rng.choice(["a", "b", "cal"])}
    elif r < 0.88:
        ps = rng.sample(w["pairs"], min(rng.choice([0, 1, 1, 2]), len(w["pairs"])))
        s = {"do": "known", "pix": [p for p, _ in ps], "wave": [v for _, v in ps]}
        if rng.random() < 0.3:
            s["bad"] = True
            s["wave"] = s["wave"] + [5000.0]
    elif r < 0.92:
        s = {"do": "use", "lib": rng.choice(["matplotlib", "plotly"])}
    elif r < 0.97:
        s = {"do": "transform", "brute": rng.random() < 0.2}
    else:
        s = {"do": "fit", "seed": rng.randrange(1 << 30)}
    if rng.random() < 0.22 and not s.get("bad"):
        s["cut"] = {"pos": trace.gen_pos(rng), "exc": rng.choice(EXC)}
        s["later"] = rng.choice([0, 0, 0, 1, 2])  # when it is issued again
    return s


def gen(rng, tier):
    w = S.gen_small(rng, kinds=("clean", "noisy", "noisy"))
    S.easy(w, rng)
    base = [
        {"do": "cal", "args": {"pixel_list": ["arange", w["npix"]], "log_level": "critical"} if rng.random() < 0.6 else {"log_level": "critical"}},
        {"do": "hough", "args": dict(w["hough"])},
        {"do": "ransac", "args": {k: v for k, v in w["ransac"].items()}},
        {"do": "set_atlas", "which": "a", "args": dict(w["atlas"])},
    ]
    rng.shuffle(base)
    steps = base + [gen_step(rng, w) for _ in range(rng.randint(2, 9))]
    if rng.random() < 0.6:  # anything may come first
        k = rng.randint(1, 4)
        head, tail = steps[: -k or None], steps[-k:]
        for s in tail:
            head.insert(rng.randint(0, len(head)), s)
        steps = head
    other = [round(W.polyval(w["coef"], p) + rng.choice([0.0, 1.0, -2.5]), 3) for p, _ in w["pairs"]] + [round(rng.uniform(3500, 5000), 3)]
    return {"world": w, "spectrum": rng.random() < 0.3, "other": other, "steps": steps, "seed": rng.randrange(1 << 30), "brute": rng.random() < 0.1}


def execute(plan):
    ctx = Ctx()
    if not W.valid(plan["world"]):
        return ctx
    begin(0)
    try:
        _run(ctx, plan)
    finally:
        end()
    return ctx


def do(ctx, fn):
    with Quiet():
        return bounded(ctx, fn, draws=2000, solves=60)


def user(lines, tag):
    from rascal.atlas import Atlas

    a = Atlas()
    if lines:
        with Quiet():
            a.add_user_atlas([tag] * len(lines), list(lines))
    return a


def setup(plan):
    env = S.Env(plan["world"], spectrum=plan["spectrum"], bare=True)
    env.atlas["b"] = user(plan["other"], "B")
    env.c.set_calibrator_properties(log_level="critical")
    return env


def pixels(spec):
    k = spec[0]
    if k == "text":
        return "abc"
    if k == "empty":
        return []
    if k == "nested":
        return [[1, 2, 3], [4, 5]]
    x = np.arange(spec[1])
    if k == "gap":
        x[spec[1] // 2 :] += spec[2]
    if k == "from":
        x = x + spec[2]
    return x.tolist() if k == "list" else x


def real(args):
    a = dict(args)
    if a.get("pixel_list") is not None:
        a["pixel_list"] = pixels(a["pixel_list"])
    return a


SETTERS = {"cal": "set_calibrator_properties", "hough": "set_hough_properties", "ransac": "set_ransac_properties"}


def issue(env, s, w):
    c, k = env.c, s["do"]
    if k in SETTERS:
        return getattr(c, SETTERS[k])(**real(s["args"]))
    if k == "set_atlas":
        a = {"none": None, "object": object()}.get(s["which"]) if s.get("bad") else env.atlas[s["which"]]
        return c.set_atlas(a, **s["args"])
    if k == "user":
        els = ["U"] * (len(s["w"]) + (2 if s.get("bad") else 0))
        if s["via"] == "cal":
            return c.add_user_atlas(els, list(s["w"]), **s["args"])
        return env.atlas[s["via"]].add_user_atlas(els, list(s["w"]))
    if k == "remove":
        t = c if s["via"] == "cal" else env.atlas[s["via"]]
        return t.remove_atlas_lines_range(s["w"], s["tol"])
    if k == "clear":
        return c.clear_atlas() if s["via"] == "cal" else env.atlas[s["via"]].clear()
    if k == "known":
        return c.set_known_pairs(list(s["pix"]), list(s["wave"]))
    if k == "use":
        return c.use_matplotlib() if s["lib"] == "matplotlib" else c.use_plotly()
    if k == "transform":
        return c.do_hough_transform(brute_force=s["brute"])
    if k == "fit":
        env.rng(s["seed"])
        return c.fit(**W.fit_args(w, max_tries=2))
    raise ValueError(k)


def record(model, s):
    """What the user has now asked for."""
    k = s["do"]
    if k in SETTERS:
        for n, v in s["args"].items():
            if v is not None:
                model[k][n] = v
    elif k == "set_atlas":
        model["which"] = s["which"]
        model["atlas"] = {"candidate_tolerance": s["args"].get("candidate_tolerance", 10.0), "constrain_poly": s["args"].get("constrain_poly", False)}
    elif k == "user" and s["via"] == "cal":
        model["atlas"] = {"candidate_tolerance": s["args"].get("candidate_tolerance", 10.0), "constrain_poly": s["args"].get("constrain_poly", False)}
    elif k == "known":
        model["known"] = [list(s["pix"]), list(s["wave"])]
    elif k == "use":
        model["cal"]["plotting_library"] = s["lib"]


def results(ctx, env, plan):
    """What a user gets out of this configuration."""
    c = env.c
    t = do(ctx, lambda: c.do_hough_transform(brute_force=plan["brute"]))
    if t is None:
        return None
    r = {"transform": t.brief()}
    r["library"] = c.which_plotting_library()
    if not t.ok:  # an earlier transform may still be there
        r["fit"] = None
        return r
    r.update(S.hough(c))
    env.bounds = bounds(c)
    r["fit"] = []
    for i in range(3):
        env.rng(plan["seed"] + i)
        f = do(ctx, lambda: c.fit(**W.fit_args(plan["world"], max_tries=(4, 6, 3)[i], **({"fit_type": "legendre"} if i == 2 else {}))))
        r["fit"].append(None if f is None else [f.brief(), values(f.value)])
    return r


def bounds(c):
    """What can be seen of the settings in a transform."""
    p = np.asarray(c.hough_points, dtype=float).reshape(-1, 2)
    if not len(p):
        return None
    h = c.ht.hist
    return {"gradients": (p[:, 0].min(), p[:, 0].max()), "intercepts": (p[:, 1].min(), p[:, 1].max()), "slopes": len(np.unique(p[:, 0])), "bins": None if h is None else np.shape(h)}


def within(ctx, plan, model, got):
    """The final values are in force in a (not exhaustive) transform."""
    h = {"num_slopes": 2000, "xbins": 100, "ybins": 100, "min_wavelength": 3000.0, "max_wavelength": 9000.0, "range_tolerance": 500.0, "linearity_tolerance": 100.0}
    h.update(model["hough"])
    if got["bins"] is not None:
        if not ctx.check(tuple(got["bins"]) == (h["xbins"], h["ybins"]), "bins", lambda: "a transform with %d by %d bins has a histogram of %r" % (h["xbins"], h["ybins"], got["bins"])):
            return False
    lo, hi = h["min_wavelength"] - h["range_tolerance"], h["min_wavelength"] + h["range_tolerance"]
    if not ctx.check(lo - 1e-6 <= got["intercepts"][0] and got["intercepts"][1] <= hi + 1e-6, "intercepts", lambda: "intercepts %r of a transform limited to %g and %g" % (got["intercepts"], lo, hi)):
        return False
    if not ctx.check(got["slopes"] <= h["num_slopes"], "slopes", lambda: "%d gradients instead of %d" % (got["slopes"], h["num_slopes"])):
        return False
    if "pixel_list" in model["cal"]:
        span = float(np.ptp(pixels(model["cal"]["pixel_list"])))
        mid = (h["max_wavelength"] - h["min_wavelength"]) / span
        wide = 3 * (h["range_tolerance"] + h["linearity_tolerance"]) / span
        ok = mid - wide - 1e-6 <= got["gradients"][0] and got["gradients"][1] <= mid + wide + 1e-6
        if not ctx.check(ok, "gradients", lambda: "gradients %r of a transform limited to %g and %g" % (got["gradients"], mid - wide, mid + wide)):
            return False
    return True


def _run(ctx, plan):
    w = plan["world"]
    env = setup(plan)
    model = {"cal": {}, "hough": {}, "ransac": {}, "which": None, "atlas": None, "known": None}
    todo = list(plan["steps"])
    done = []
    while todo:
        s = todo.pop(0)
        if s["do"] in ("user", "remove", "clear") and s["via"] == "cal" and model["which"] is None:
            continue  # nothing attached yet
        cut = None
        if "cut" in s and not s.get("reissue"):
            twin = setup(plan)
            for h in done:
                do(ctx, lambda: issue(twin, h, w))
            _, ref = trace.reference(lambda: do(ctx, lambda: issue(twin, s, w)))
            cut = trace.Tracer(at=trace.resolve(s["cut"]["pos"], ref), exc=s["cut"]["exc"])
        before = settings(env)
        out = cut.run(lambda: do(ctx, lambda: issue(env, s, w))) if cut else do(ctx, lambda: issue(env, s, w))
        ctx.steps += 1
        if out is None:
            ctx.mark("stuck", s["do"])
            if s["do"] != "fit":
                return
            continue
        ctx.mark(s["do"], out.brief(), bool(cut and cut.fired), bool(s.get("bad")))
        if cut and cut.fired and not out.ok and s["do"] not in ("transform", "fit"):
            todo.insert(min(s["later"], len(todo)), dict(s, reissue=True))
            continue
        if s.get("bad"):
            if out.ok:
                SIM.probe("accepted:" + s["do"])
                return  # not refused after all: nothing to compare with
            d = S.diff(before, settings(env))
            if not ctx.check(not d, "refused:" + s["do"], lambda: "%s(%r) was refused (%r) and changed %s" % (s["do"], s.get("args"), out, ", ".join(d))):
                return
            continue
        if not out.ok:
            if s["do"] in ("transform", "fit"):
                continue
            legit = s["do"] == "set_atlas" or lines_gone(env, model)
            legit = legit or (model["atlas"] or {}).get("constrain_poly")
            if not ctx.check(legit, "failed:" + s["do"], lambda: "%s(%r) raised %r" % (s["do"], s.get("args"), out)):
                return
            return
        done.append(s)
        record(model, s)
    if model["which"] is None:
        ctx.mark("no-atlas")
        return
    for k in SETTERS:
        for n, v in model[k].items():
            if n == "log_level" or not hasattr(env.c, n):
                continue
            v = pixels(v) if n == "pixel_list" else v
            if not ctx.check(np.array_equal(getattr(env.c, n), v), "value:" + n, lambda: "%s was last set to %r and is %r" % (n, v, getattr(env.c, n))):
                return
    for k, d in DEFAULTS.items():
        for n, v in d.items():
            if n in model[k] or not hasattr(env.c, n):
                continue
            if not ctx.check(np.array_equal(getattr(env.c, n), v), "default:" + n, lambda: "%s was never set, and is %r" % (n, getattr(env.c, n))):
                return
    want = model["cal"].get("plotting_library", "matplotlib")
    if not ctx.check(env.c.which_plotting_library() == want, "library", lambda: "plots with %s, told to with %s" % (env.c.which_plotting_library(), want)):
        return
    fresh = S.Env(w, spectrum=plan["spectrum"], bare=True)
    fresh.c.set_calibrator_properties(log_level="critical")
    final = [(l.element, l.wavelength) for l in env.atlas[model["which"]].atlas_lines]
    from rascal.atlas import Atlas

    a = Atlas()
    if final:
        with Quiet():
            a.add_user_atlas([e for e, _ in final], [v for _, v in final])

    def configure():
        c = fresh.c
        c.set_calibrator_properties(**real(dict(model["cal"], log_level="critical")))
        c.set_hough_properties(**model["hough"])
        c.set_ransac_properties(**model["ransac"])
        c.set_atlas(a, **model["atlas"])
        if model["known"]:
            c.set_known_pairs(*model["known"])

    out = do(ctx, configure)
    if out is None or not out.ok:
        ctx.mark("fresh", None if out is None else out.brief())
        return
    mine, want = results(ctx, env, plan), results(ctx, fresh, plan)
    if mine is None or want is None:
        ctx.check(mine is None and want is None, "stuck", "only one of the two transforms ended")
        return
    ctx.nontrivial = want["transform"] == "ok"
    ctx.mark("final", want["transform"], want["fit"] and [f and f[0] for f in want["fit"]])
    for f in want["fit"] or ():
        SIM.probe("fit:%s" % (f and f[0]))
    for k in sorted(set(mine) | set(want), key=lambda k: (k == "fit", k)):
        what = "fit" if k == "fit" else "library" if k == "library" else "transform"
        if not ctx.check(
            mine.get(k) == want.get(k), what,
            lambda: "%s after the calls %s differs from that of a calibrator given the final values directly: %r, %r"
            % (k, [s["do"] for s in plan["steps"]], str(mine.get(k))[:120], str(want.get(k))[:120]),
        ):
            return
    if want["transform"] == "ok" and not plan["brute"] and env.bounds and not within(ctx, plan, model, env.bounds):
        return
    SIM.note(digest(mine))


def lines_gone(env, model):
    return model["which"] is None or len(env.atlas[model["which"]]) == 0


def settings(env):
    c = env.c
    s = S.config(c)
    s["atlas"] = S.atlas_state(c.atlas)
    s["which"] = [k for k, a in env.atlas.items() if a is c.atlas]
    s["library"] = c.which_plotting_library()
    for k, a in env.atlas.items():
        s["atlas:" + k] = S.atlas_state(a)
    return s
