"""C21: a synthetic spectrum answers for the model and the limits last set."""

import numpy as np

from ..core import Ctx, SIM, Quiet, attempt, begin, digest, end, values
from ..seams import REAL, _exc
from .. import trace


def g_coef(rng):
    """Increasing over any pixel a wavelength of these worlds can map to."""
    lo = round(rng.uniform(150.0, 450.0), 3)
    g = round(rng.uniform(0.3, 2.5), 4)
    deg = rng.choice([0, 1, 1, 1, 2, 2, 3, 3, 4, 5])
    if deg == 0:
        return [lo]
    if deg == 1:
        return [lo, g]  # a line is given as intercept, gradient
    c = [g, lo]  # and a curve with its highest order first
    for k in range(2, deg + 1):
        c.insert(0, round(rng.uniform(-1, 1), 4) * 0.04 * g / ((2000.0 / g) ** (k - 1)))
    return c


def g_limit(rng):
    return rng.choice([None, round(rng.uniform(100.0, 1500.0), 2), round(rng.uniform(100.0, 1500.0), 2)])


def g_bad(rng):
    return rng.choice([
        {"op": "model", "who": 0, "bad": rng.choice([5, "text", 2.5])},
        {"op": "limits", "who": 0, "lo": rng.choice(["200", True, 7]), "hi": round(rng.uniform(900, 1300), 1)},
        {"op": "limits", "who": 0, "lo": round(rng.uniform(300, 500), 1), "hi": rng.choice(["900", 12])},
        {"op": "limits", "who": 0, "lo": 1400.0, "hi": 300.0},
        {"op": "limits", "who": 0, "lo": 500.0, "hi": 500.0},
        {"op": "get", "who": 0, "bad": 5.0},
    ])


def gen(rng, tier):
    ops = []
    two = rng.random() < 0.4
    for _ in range(rng.randint(2, 9)):
        who = rng.randrange(2) if two else 0
        r = rng.random()
        if r < 0.3:
            op = {"op": "model", "coef": g_coef(rng), "as": rng.choice(["list", "array"])}
        elif r < 0.5:
            op = {"op": "limits", "lo": g_limit(rng), "hi": g_limit(rng)}
        elif r < 0.6:
            op = g_bad(rng)
        elif r < 0.68:
            op = {"op": "touch", "by": rng.choice([1.0, -3.0])}
        else:
            op = {"op": "get", "w": [round(rng.uniform(50, 1700), rng.choice([0, 3])) for _ in range(rng.choice([0, 1, 4, 9, 9]))],
                  "as": rng.choice(["list", "array", "ints"]), "fail": rng.random() < 0.2}
        op["who"] = who
        if rng.random() < 0.25:
            op["cut"] = {"pos": trace.gen_pos(rng), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
        ops.append(op)
    first = [{"coef": rng.choice([None, g_coef(rng), g_coef(rng)]), "lim": rng.choice([None, [200.0, 1200.0], [150.5, 1600.25]])} for _ in range(2)]
    ops.append({"op": "get", "who": 0, "w": [round(rng.uniform(50, 1700), 2) for _ in range(8)], "as": "array", "fail": False})
    return {"first": first, "ops": ops}


def poly(c, x):
    x = np.asarray(x, dtype=float)
    if len(c) == 1:
        return np.full(x.shape, float(c[0]))
    if len(c) == 2:
        return c[0] + c[1] * x
    return np.polyval(c, x)


class Model:
    """What the documentation says the generator is after its history."""

    def __init__(self, coef, lo, hi):
        self.coef, self.lo, self.hi = coef, lo, hi


def execute(plan):
    ctx = Ctx()
    begin(0)
    try:
        with Quiet():
            _run(ctx, plan)
    finally:
        end()
    return ctx


def fresh(m):
    from rascal.synthetic import SyntheticSpectrum

    return SyntheticSpectrum(None if m.coef is None else list(m.coef), m.lo, m.hi)


def _run(ctx, plan):
    from rascal.synthetic import SyntheticSpectrum

    objs, models, given = [], [], []
    for f in plan["first"]:
        lim = f["lim"] or [200.0, 1200.0]
        c = None if f["coef"] is None else list(f["coef"])
        o = SyntheticSpectrum(c, *f["lim"]) if f["lim"] else SyntheticSpectrum(c)
        objs.append(o)
        models.append(Model(None if c is None else list(c), lim[0], lim[1]))
        given.append(c)
    fail = {"on": False}
    real = REAL["inversefunc"]

    def inverse(*a, **kw):
        if fail["on"]:
            SIM.fire("inversefunc:ValueError")
            raise _exc("ValueError")
        return real(*a, **kw)

    SIM.solver_stub["inversefunc"] = inverse

    def get(o, w):
        with np.errstate(all="ignore"):
            return attempt(lambda: o.get_pixels(w))

    def call(o, op, target):
        k = op["op"]
        if k == "model":
            v = op["bad"] if "bad" in op else target
            return attempt(lambda: o.set_model(v))
        if k == "limits":
            return attempt(lambda: o.set_wavelength_limit(op["lo"], op["hi"]))
        return get(o, target)

    for n, op in enumerate(plan["ops"]):
        o, m = objs[op["who"]], models[op["who"]]
        k = op["op"]
        ctx.steps += 1
        target = None
        if k == "touch":  # the caller goes on using its own list
            g = given[op["who"]]
            if g is not None:
                for i in range(len(g)):
                    g[i] += op["by"]
            continue
        if k == "model" and "bad" not in op:
            target = np.array(op["coef"]) if op["as"] == "array" else list(op["coef"])
        if k == "get":
            if "bad" in op:
                target = op["bad"]
            elif op["as"] == "ints":
                target = [int(v) for v in op["w"]]
            else:
                target = np.array(op["w"], dtype=float) if op["as"] == "array" else list(op["w"])
        before = values(target)
        if op.get("cut"):
            def twin():
                t = fresh(m)
                return call(t, op, target)

            _, ref = trace.reference(twin)
            t = trace.Tracer(at=trace.resolve(op["cut"]["pos"], ref), exc=op["cut"]["exc"])
            t.run(lambda: call(o, op, target))
            if t.fired:
                ctx.mark("cut", t.fired[1])
        if op.get("fail"):
            fail["on"] = True
            r = call(o, op, target)
            fail["on"] = False
            ctx.mark("fail", r.brief())
        r = call(o, op, target)
        ctx.check(values(target) == before, "input", lambda: "%s changed what it was given" % k)
        ctx.mark(k, r.brief(), op["who"])
        SIM.note(n, k, r.brief())
        if k == "model":
            if "bad" in op:
                if not ctx.check(not r.ok, "refuse:model", lambda: "set_model(%r) was accepted" % (op["bad"],)):
                    return
            else:
                if not ctx.check(r.ok, "model:" + r.brief(), lambda: "set_model(%r): %r" % (op["coef"], r)):
                    return
                m.coef = list(op["coef"])
                given[op["who"]] = target
        elif k == "limits":
            bad = any(v is not None and not isinstance(v, float) for v in (op["lo"], op["hi"]))
            lo = m.lo if op["lo"] is None else op["lo"]
            hi = m.hi if op["hi"] is None else op["hi"]
            if bad and r.ok and all(isinstance(v, (int, float)) and not isinstance(v, bool) for v in (lo, hi)):
                bad = not hi > lo  # whole numbers may be accepted
            elif not bad:
                bad = not hi > lo
            if not ctx.check(r.ok != bad, "limits:" + r.brief(), lambda: "set_wavelength_limit(%r, %r) with %r to %r in force: %r" % (op["lo"], op["hi"], m.lo, m.hi, r)):
                return
            if r.ok:
                m.lo, m.hi = lo, hi
        else:
            if "bad" in op or m.coef is None:
                ctx.check(not r.ok, "refuse:get", lambda: "get_pixels(%r) with model %r gave %r" % (target, m.coef, r.value))
                continue
            if not ctx.check(r.ok, "get:" + r.brief(), lambda: "get_pixels(%r) of model %r: %r" % (target, m.coef, r)):
                return
            ctx.nontrivial = True
            p, w = (np.asarray(v, dtype=float) for v in r.value)
            want = [float(v) for v in target if m.lo < v < m.hi]
            if not ctx.check([float(v) for v in w] == want, "filter", lambda: "wavelengths %r kept of %r, the limits are %r to %r" % (list(w), list(target), m.lo, m.hi)):
                return
            if not ctx.check(p.shape == w.shape, "shape", lambda: "%d pixels for %d wavelengths" % (p.size, w.size)):
                return
            ctx.mark("n", len(want), len(m.coef))
            if len(m.coef) > 1 and len(want):
                d = np.abs(poly(m.coef, p) - w)
                if not ctx.check(bool(np.all(d < 0.02)), "invert", lambda: "pixels %r of wavelengths %r are off by up to %.3g through %r" % (list(p), want, float(d.max()), m.coef)):
                    return
            t = get(fresh(m), target)
            if not ctx.check(t.ok and values(t.value) == values(r.value), "history", lambda: "after its history the generator gives %r, a new one %r" % (r.value, t.value if t.ok else t)):
                return
    SIM.note(digest([(m.coef, m.lo, m.hi) for m in models]))
