"""C15: known pairs take part in every hypothesis."""

import collections

import numpy as np

from .. import adversary, script as S, trace, world as W
from ..core import Ctx, SIM, SimStuck, Quiet, bounded, begin, digest, end, values

EXC = ["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError"]
CALLS = 200  # trial fits of one search that are looked at
FITS = ("polyfit", "legfit", "chebfit")


def gen_known(rng, w):
    n = rng.choice([0, 1, 1, 2, 2, 3, 5])
    out = []
    for _ in range(n):
        r = rng.random()
        if r < 0.4:
            p, v = rng.choice(w["pairs"]) if w["pairs"] else (10.0, 4000.0)
        elif r < 0.8:
            p = round(rng.uniform(-30, w["npix"] + 30), 2)
            v = round(W.polyval(w["coef"], p) + rng.choice([0.0, 0.5, 20.0]), 3)
        else:
            p, v = round(rng.uniform(0, w["npix"]), 2), round(rng.uniform(2000, 8000), 2)
        out.append([p, v])
        if rng.random() < 0.1:
            out.append([p, v])
    if rng.random() < 0.2:  # whole numbers
        out = [[int(p), int(v)] for p, v in out]
    return out


def gen_step(rng, w):
    r = rng.random()
    if r < 0.34:
        return {"do": "known", "pairs": gen_known(rng, w), "as": rng.choice(["list", "array", "tuple", "scalar", "mixed"]),
                "cut": {"pos": trace.gen_pos(rng), "exc": rng.choice(EXC)} if rng.random() < 0.25 else None}
    if r < 0.46:
        k = gen_known(rng, w) or [[5.0, 4000.0]]
        return {"do": "bad", "pairs": k, "how": rng.choice(["more", "fewer", "nan", "nanw", "text", "textw", "none"])}
    if r < 0.5:
        return {"do": "op", "op": rng.choice([S.g_ransac, S.g_atlas, S.g_match, S.g_refit, S.g_pair])(rng, w)}
    s = {"do": "fit", "op": S.g_fit(rng, w), "brute": rng.random() < 0.12}
    if rng.random() < 0.1:
        s["op"]["fit_coeff"] = S.truth_coef(w)
    r = rng.random()
    if r < 0.14:
        s["cut"] = {"pos": trace.gen_pos(rng), "exc": rng.choice(EXC)}
    elif r < 0.34:
        s["solver"] = {"site": rng.choice(["least_squares", "polyfit", "polyfit", "legfit"]), "nth": rng.randrange(4),
                       "exc": rng.choice(["LinAlgError", "LinAlgError", "ValueError", "MemoryError"]), "repeat": rng.choice([1, 1, -1])}
    return s


def gen(rng, tier):
    w = S.gen_small(rng, kinds=("clean", "clean", "noisy", "noisy", "grid", "poor"))
    w["fit"]["max_tries"] = rng.choice([2, 3, 5])
    steps = [gen_step(rng, w) for _ in range(rng.randint(3, 7))]
    if rng.random() < 0.7:
        steps.insert(0, {"do": "known", "pairs": gen_known(rng, w), "as": "list", "cut": None})
    steps.append({"do": "fit", "op": S.g_fit(rng, w), "brute": False})
    return {"world": w, "steps": steps}


def shape(v, how, k):
    v = list(v)
    if how == "array" or (how == "mixed" and k):
        return np.array(v)
    if how == "tuple":
        return tuple(v)
    if how == "scalar" and len(v) == 1:
        return v[0]
    return v


def broken(s):
    x, y = [p for p, _ in s["pairs"]], [v for _, v in s["pairs"]]
    h = s["how"]
    if h == "more":
        return x, y + [5000.0]
    if h == "fewer":
        return x, y[1:]
    if h == "nan":
        return [float("nan")] + x[1:], y
    if h == "nanw":
        return x, [float("nan")] + y[1:]
    if h == "text":
        return ["a"] * len(x), y
    if h == "textw":
        return x, ["a"] * len(x)
    return None, y


def execute(plan):
    ctx = Ctx()
    if not W.valid(plan["world"]):
        return ctx
    begin(0)
    try:
        _run(ctx, plan)
    finally:
        end()
    return ctx


def do(ctx, fn):
    with Quiet():
        return bounded(ctx, fn, draws=500, solves=40)


def give(c, s):
    return c.set_known_pairs(shape([p for p, _ in s["pairs"]], s["as"], 0), shape([v for _, v in s["pairs"]], s["as"], 1))


def floats(pairs):
    """The pairs, whatever their order."""
    return sorted((float(p), float(v)) for p, v in pairs)


def in_force(c, default=None):
    if not (hasattr(c, "pix_known") and hasattr(c, "wave_known")):
        return default  # kept some other way: the hypotheses will show
    if c.pix_known is None and c.wave_known is None:
        return []
    p, v = np.ravel(c.pix_known), np.ravel(c.wave_known)
    if len(p) != len(v) or any(t is None for t in list(p) + list(v)):
        return None
    return floats(zip(p, v))


class Watch:
    """What the trial polynomials are fitted to."""

    def __init__(self):
        self.calls = []

    def __call__(self, site, args, kw):
        if site in FITS:
            if len(self.calls) >= CALLS:
                raise SimStuck("trial fits")
            x = args[0] if args else kw.get("x")
            y = args[1] if len(args) > 1 else kw.get("y")
            self.calls.append((site, floats(zip(np.ravel(x), np.ravel(y))), len(np.ravel(x)), len(np.ravel(y))))


def fit(ctx, env, s):
    o = dict(s["op"], op="fit")
    if s["brute"]:
        o["over"] = dict(o["over"], brute_force=True, candidate_tolerance=3.0)
    w = Watch()
    SIM.solver_observer = w
    try:
        out = do(ctx, lambda: S.do(env, o))
    finally:
        SIM.solver_observer = None
    return out, w.calls


def setup(plan):
    env = S.Env(plan["world"])
    env.c.set_ransac_properties(top_n_candidate=3)
    env.c.do_hough_transform()  # not left to the first fit, which may be cut short
    return env


def _run(ctx, plan):
    w = plan["world"]
    env = setup(plan)
    known = []
    history = []  # completed steps other than known pairs, to repeat elsewhere
    certain = True
    for n, s in enumerate(plan["steps"]):
        c = env.c
        ctx.steps += 1
        if s["do"] == "known":
            new = floats(s["pairs"])
            if s["cut"]:
                twin = setup(plan)
                _, ref = trace.reference(lambda: do(ctx, lambda: give(twin.c, s)))
                t = trace.Tracer(at=trace.resolve(s["cut"]["pos"], ref), exc=s["cut"]["exc"])
                out = t.run(lambda: do(ctx, lambda: give(c, s)))
                ctx.mark("known", "cut", out.brief())
                now = in_force(c, known)
                if not ctx.check(now in (known, new), "known:torn", lambda: "interrupted while %r replaced %r as the known pairs, the calibrator has %r" % (new, known, now)):
                    return
                known = now
                continue
            out = do(ctx, lambda: give(c, s))
            ctx.mark("known", len(new), out.brief())
            if not ctx.check(out.ok, "known:refused", lambda: "set_known_pairs(%r) raised %r" % (new, out)):
                return
            known = new
        elif s["do"] == "bad":
            x, y = broken(s)
            out = do(ctx, lambda: c.set_known_pairs(x, y))
            ctx.mark("bad", s["how"], out.brief())
            if not ctx.check(not out.ok, "bad:accepted:" + s["how"], lambda: "set_known_pairs(%r, %r) was accepted" % (x, y)):
                return
            now = in_force(c, known)
            if not ctx.check(now == known, "bad:changed:" + s["how"], lambda: "a refused set of known pairs (%r, %r) replaced %r by %r" % (x, y, known, now)):
                return
        elif s["do"] == "op":
            out = do(ctx, lambda: S.do(env, s["op"]))
            history.append(s)
            if out is None:
                return
            ctx.mark(s["op"]["op"], out.brief())
        else:
            cut = None
            if "cut" in s:
                twin = setup(plan)
                for h in history:
                    replay(ctx, twin, h)
                do(ctx, lambda: twin.c.set_known_pairs([p for p, _ in known], [v for _, v in known]))
                (_, _), ref = trace.reference(lambda: fit(ctx, twin, s))
                cut = trace.Tracer(at=trace.resolve(s["cut"]["pos"], ref), exc=s["cut"]["exc"])
            SIM.solver_calls = {}
            SIM.solver_faults = [s["solver"]] if "solver" in s else []
            out, calls = cut.run(lambda: fit(ctx, env, s)) if cut else fit(ctx, env, s)
            SIM.solver_faults = []
            ctx.mark("fit", len(known), None if out is None else out.brief(), len(calls))
            SIM.probe("hypotheses", len(calls))
            if not look(ctx, env, s, known, calls):
                return
            ctx.nontrivial = ctx.nontrivial or bool(calls and known)
            now = in_force(c, known)
            if not ctx.check(now == known, "fit:replaced", lambda: "a fit (%r) changed the known pairs from %r to %r" % (out, known, now)):
                return
            if not cut and "solver" not in s and out is not None and certain:
                # a calibrator given just these pairs does the same
                other = setup(plan)
                for h in history:
                    replay(ctx, other, h)
                if known:
                    other.c.set_known_pairs([p for p, _ in known], [v for _, v in known])
                o2, c2 = fit(ctx, other, s)
                if not ctx.check(
                    o2 is not None and o2.brief() == out.brief() and values(o2.value) == values(out.value) and c2 == calls, "fit:other",
                    lambda: "after replacing known pairs a fit gives %r (%d hypotheses), given %r only, %r (%d)" % (out, len(calls), known, o2, len(c2)),
                ):
                    return
            if "cut" in s or "solver" in s:
                continue
            history.append(s)
    SIM.note(digest(known))


def replay(ctx, env, h):
    if h["do"] == "op":
        do(ctx, lambda: S.do(env, h["op"]))
    else:
        fit(ctx, env, h)


def look(ctx, env, s, known, calls):
    c = env.c
    deg = dict(W.fit_args(env.w, **s["op"].get("over", {})))["fit_deg"]
    if s["op"].get("fit_coeff") is not None:
        deg = len(s["op"]["fit_coeff"]) - 1
    peaks = {float(p) for p in c.peaks}
    lines = {float(v) for v in c.atlas.get_lines()} if c.atlas is not None else set()
    sizes = set()
    for i, (site, pts, nx, ny) in enumerate(calls):
        if not ctx.check(nx == ny, "hypothesis:lengths", lambda: "hypothesis %d is fitted to %d pixels and %d wavelengths" % (i, nx, ny)):
            return False
        have = collections.Counter(pts)
        need = collections.Counter(known)
        gone = need - have
        if not ctx.check(not gone, "hypothesis:without", lambda: "hypothesis %d of a fit is not fitted to the known pairs %r, only to %r" % (i, list(gone), pts)):
            return False
        rest = list((have - need).elements())
        stray = [p for p in rest if p[0] not in peaks or p[1] not in lines]
        if not ctx.check(not stray, "hypothesis:stray", lambda: "hypothesis %d is fitted to %r, neither known nor a peak and a line" % (i, stray)):
            return False
        if not ctx.check(len(rest) > deg or len(rest) == min(len(lines), len(peaks)), "hypothesis:few", lambda: "hypothesis %d of degree %d has a sample of %d besides the known pairs" % (i, deg, len(rest))):
            return False
        sizes.add(len(rest))
    return ctx.check(len(sizes) <= 1, "hypothesis:sizes", lambda: "the samples of one fit have sizes %r" % sorted(sizes))
