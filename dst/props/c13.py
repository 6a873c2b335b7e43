"""C13: a peak that cannot be refined never harms the other peaks."""

import math

import numpy as np

from ..core import Ctx, SIM, Quiet, attempt, begin, digest, end, values
from .. import trace

TRUTH_TOL = 0.05


def gen(rng, tier):
    n = rng.choice([40, 80, 150, 250])
    peaks = []
    x = rng.choice([2.0, 4.0, 7.0, 15.0]) + rng.random()
    if rng.random() < 0.35:  # the far end of a long detector
        far = rng.choice([500, 2000, 4000])
        n += far
        x += far
    while x < n - 1:
        peaks.append({
            "at": round(x, 3), "s": round(rng.uniform(1.2, 2.6), 3), "h": round(rng.choice([1.0, 1.0, 1.0, 0.1, 30.0]) * rng.uniform(5, 90), 3),
            "how": rng.choice(["clean"] * 6 + ["nan", "nan", "dead", "hole", "saturated", "zero", "inf", "dip"]),
        })
        x += rng.choice([3.0, 5.0, 9.0, 14.0, 24.0, 32.0]) + rng.random()
    gappy = rng.random() < 0.15
    if gappy:  # isolated peaks with data missing in their wings
        n = 150
        peaks = [{"at": round(c + rng.uniform(-2, 2), 3), "s": round(rng.uniform(1.5, 2.2), 3), "h": round(rng.uniform(5, 90), 2), "how": rng.choice(["nan", "nan", "clean", "dead"])} for c in (20, 55, 95, 128)]
    ask = []
    for i, p in enumerate(peaks):
        r = rng.random()
        ask.append({"i": i, "off": rng.choice([0, 0, 0, 1, -1, 2]), "frac": rng.choice([0.0, 0.0, 0.0, 0.4, 0.9])})
        if r < 0.1:
            ask.append({"i": i, "off": rng.choice([1, 2]), "frac": 0.0})
    for _ in range(rng.choice([0, 0, 1, 2])):
        ask.insert(rng.randrange(len(ask) + 1), {"at": rng.choice([-40, -3, 0, n - 1, n, n + 4, n + 60, rng.randrange(n)])})
    if rng.random() < 0.15:
        rng.shuffle(ask)
    if rng.random() < 0.05:
        ask = []
    faults = {}
    for j in range(len(ask)):
        if rng.random() < 0.2:
            faults[str(j)] = rng.choice(["RuntimeError", "RuntimeError", "nan", "negative", "far", "before", "inf"])
    plan = {
        "n": n, "peaks": peaks, "ask": ask, "faults": faults, "base": rng.choice([0.0, 0.0, 0.0, 0.5, 3.0]),
        "noise": rng.choice([0.0, 0.0, 0.0, 0.3]), "seed": rng.randrange(1 << 30), "width": rng.choice([5, 5, 8, 10, 10, 3, 2]),
        "kind": rng.choice(["float", "float", "list", "int", "intlist", "float32", "ro"]),
        "askas": rng.choice(["list", "array", "ints"]), "sub": rng.randrange(1 << 30),
        "cut": {"pos": trace.gen_pos(rng), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])} if rng.random() < 0.2 else None,
    }
    if gappy:
        plan.update(width=rng.choice([8, 10]), base=0.0, noise=0.0, kind=rng.choice(["float", "list", "ro"]))
    return plan


def spectrum(plan):
    n = plan["n"]
    x = np.arange(n, dtype=float)
    y = np.full(n, plan["base"])
    for p in plan["peaks"]:
        h = -p["h"] if p["how"] == "dip" else p["h"]
        y += h * np.exp(-((x - p["at"]) ** 2) / (2 * p["s"] ** 2))
    if plan["noise"]:
        y += plan["noise"] * np.random.RandomState(plan["seed"]).standard_normal(n)
    for p in plan["peaks"]:
        c = int(round(p["at"]))
        if p["how"] == "nan":
            for k in (c - 3, c + 4):
                if 0 <= k < n:
                    y[k] = np.nan
        elif p["how"] == "inf" and c < n:
            y[c] = np.inf
        elif p["how"] == "dead":
            y[max(0, c - 12) : c + 13] = np.nan
        elif p["how"] == "hole":
            y[max(0, c - 12) : c + 13] = np.nan
            for k in (c, c + 1):
                if k < n:
                    y[k] = p["h"]
        elif p["how"] == "zero":
            y[max(0, c - 12) : c + 13] = 0.0
        elif p["how"] == "saturated":
            y = np.minimum(y, 0.5 * p["h"])
    return y


def given(plan):
    y = spectrum(plan)
    k = plan["kind"]
    if k in ("int", "intlist"):
        y = np.where(np.isfinite(y), y, 0.0)
        y = np.round(y * 20).astype(int)
        return (y.tolist() if k == "intlist" else y), y.astype(float)
    if k == "list":
        return y.tolist(), y
    if k == "float32":
        y = y.astype("float32")
        return y, None
    if k == "ro":
        y.flags.writeable = False
    return y, y.copy()


def asked(plan):
    out = []
    for a in plan["ask"]:
        if "at" in a:
            out.append(float(a["at"]))
        elif a["i"] < len(plan["peaks"]):
            out.append(round(plan["peaks"][a["i"]]["at"]) + a["off"] + a["frac"])
    if plan["askas"] == "ints":
        return [int(v) for v in out]
    return out


def same(a, b):
    """Two answers, up to the last bits of the fits."""
    a, b = ([float(t) for t in np.asarray(v).ravel()] if v is not None else v for v in (a, b))
    return a == b or (a is not None and b is not None and len(a) == len(b) and np.allclose(a, b, rtol=1e-9, atol=1e-9))


def execute(plan):
    ctx = Ctx()
    begin(0)
    try:
        _run(ctx, plan)
    finally:
        end()
    return ctx


def _run(ctx, plan):
    from rascal.util import refine_peaks
    import scipy.optimize

    from ..seams import REAL, _exc

    y, yf = given(plan)
    asks = asked(plan)
    w = plan["width"]
    before = values(y)
    calls = []  # (args, popt) of the fits that gave a result
    fault = {}

    def fit(*a, **kw):
        n = len(calls)
        f = fault.get(n)
        if f == "RuntimeError":
            calls.append(None)
            SIM.fire("curve_fit:RuntimeError")
            raise _exc("RuntimeError")
        try:
            out = REAL["curve_fit"](*a, **kw)
        except BaseException:
            calls.append(None)
            raise
        if f is not None:
            SIM.fire("curve_fit:" + f)
            p = np.array(out[0], dtype=float)
            if f == "nan":
                p[:] = np.nan
            elif f == "negative":
                p[0] = -1.0
            elif f == "far":
                p[1] = 1e7
            elif f == "before":
                p[1] = -1e7
            elif f == "inf":
                p[1] = np.inf
            calls.append(None)
            return (p,) + tuple(out[1:])
        f, xx, yy = a[:3] if len(a) > 2 else (None, None, None)
        err = None
        if f is not None:
            try:
                err = float(np.max(np.abs(f(np.asarray(xx), *out[0]) - yy)))
            except Exception:
                pass
        calls.append(err)
        return out

    SIM.solver_stub["curve_fit"] = fit

    def refine(sp, ps, faults=()):
        calls.clear()
        fault.clear()
        fault.update(faults)
        p = np.array(ps) if plan["askas"] == "array" else list(ps)
        keep = values(p)
        with Quiet():
            out = attempt(lambda: refine_peaks(sp, p, window_width=w))
        ctx.steps += 1
        ctx.check(values(p) == keep, "input:peaks", "refine_peaks changed the list of peaks it was given")
        return out, list(calls)

    # each peak alone
    solo, ncall = [], []
    for j, a in enumerate(asks):
        out, c = refine(y, [a])
        if not ctx.check(out.ok, "alone:" + out.brief(), lambda: "refining peak %r of %d pixels, alone, raised %r" % (a, plan["n"], out)):
            return
        v = [float(t) for t in np.asarray(out.value).ravel()]
        solo.append(v)
        ncall.append(len(c))
        if not ctx.check(len(v) <= 1 and all(0 <= t < plan["n"] for t in v), "alone:range", "refining one peak gave %r" % (v,)):
            return
        ctx.mark(len(v), len(c))
        # does the position mean what the fit said?
        good = v and c and c[-1] is not None and c[-1] < 1e-4
        plain = all(p["how"] in ("clean", "nan") for p in plan["peaks"] if abs(p["at"] - a) < w + 12)
        plain = plain and not any(p["how"] == "saturated" for p in plan["peaks"])
        plain = plain and any(abs(p["at"] - a) < 3 for p in plan["peaks"])
        if good and plain and w >= 5 and plan["noise"] == 0 and plan["base"] == 0 and plan["kind"] in ("float", "list", "ro"):
            near = min((abs(v[0] - p["at"]) for p in plan["peaks"]), default=0.0)
            SIM.probe("exact")
            if not ctx.check(near < TRUTH_TOL, "position", lambda: "the Gaussian fitted for the peak near %r is exact, and the position returned, %r, is %.2f pixels from any peak" % (a, v[0], near)):
                return
        # data missing in the wings do not lose a peak
        src = plan["ask"][j] if j < len(plan["ask"]) else {}
        if not v and "i" in src and plan["kind"] in ("float", "list", "ro") and plan["noise"] == 0 and plan["base"] == 0 and w in (8, 10):
            p = plan["peaks"][src["i"]]
            others = [abs(q["at"] - p["at"]) for q in plan["peaks"] if q is not p]
            ok = p["how"] == "nan" and min(others, default=99) > 22 and w + 1 < p["at"] < plan["n"] - w - 2 and src["off"] == 0 and 1.5 < p["s"] < 2.2
            ok = ok and not any(q["how"] == "saturated" for q in plan["peaks"])
            if ok:
                SIM.probe("gap")
                if not ctx.check(False, "gap", lambda: "the isolated peak at %.2f is lost because a pixel in its wing has no data" % p["at"]):
                    return

    def compare(idx, out, what, lost=()):
        ctx.nontrivial = ctx.nontrivial or bool(lost) or len(idx) > 1
        if not ctx.check(out.ok, what + ":" + out.brief(), lambda: "%s: refining %d peaks raised %r, each alone is refined" % (what, len(idx), out)):
            return False
        got = [float(t) for t in np.asarray(out.value).ravel()]
        want = [(j, solo[j][0]) for j in idx if solo[j] and j not in lost]
        # in order, every result is one peak's own; a peak may only be missing as a duplicate
        k = 0
        for g in got:
            # (the last bits of a fit depend on how the data lie in memory)
            while k < len(want) and abs(want[k][1] - g) > 1e-9 * (1.0 + abs(g)):
                k += 1
            if not ctx.check(
                k < len(want), what + ":other",
                lambda: "%s: %r is not what any of these peaks gives alone, in order (%r)" % (what, g, [v for _, v in want]),
            ):
                return False
            k += 1
        for j, v in want:
            if not ctx.check(
                any(abs(v - g) <= 2e-5 * abs(v) + 1e-6 for g in got), what + ":missing",
                lambda: "%s: peak %r refines to %r alone, and is missing from %r" % (what, asks[j], v, got),
            ):
                return False
        ctx.mark(what, len(got), len(want))
        return True

    def plan_faults(idx):
        f, lost, n = {}, set(), 0
        for j in idx:
            kind = plan["faults"].get(str(j))
            if kind and ncall[j]:
                for t in range(ncall[j]):
                    f[n + t] = kind
                lost.add(j)
            n += ncall[j]
        return f, lost

    everything = list(range(len(asks)))
    out, _ = refine(y, asks)
    if not compare(everything, out, "together"):
        return
    f, lost = plan_faults(everything)
    if f:
        out, _ = refine(y, asks, f)
        if not compare(everything, out, "failing", lost):
            return
    import random

    rng = random.Random(plan["sub"])
    some = [j for j in everything if rng.random() < 0.6]
    if rng.random() < 0.3:
        some.reverse()
    f, lost = plan_faults(some) if rng.random() < 0.6 else ({}, set())
    out, _ = refine(y, [asks[j] for j in some], f)
    if not compare(some, out, "some", lost):
        return
    if plan["cut"] and asks:
        _, ref = trace.reference(lambda: refine(y, asks))
        t = trace.Tracer(at=trace.resolve(plan["cut"]["pos"], ref), exc=plan["cut"]["exc"])
        cut = t.run(lambda: refine(y, asks))[0]
        if t.fired:
            ctx.mark("cut", t.fired[1], cut.brief())
            ctx.nontrivial = True
        out, _ = refine(y, asks)
        if not compare(everything, out, "again"):
            return
    if plan["kind"] in ("int", "intlist") and asks:
        a, _ = refine(yf, asks)
        b, _ = refine(y, asks)
        if not ctx.check(a.brief() == b.brief() and same(a.value, b.value), "integers", lambda: "whole-number counts: %r, the same as floats: %r" % (b.value, a.value)):
            return
    ctx.check(values(y) == before, "input:spectrum", "refine_peaks changed the spectrum it was given")
    SIM.note(digest(solo))
