"""C11: plotting only observes, and a figure save is never silently lost."""

import gc
import os
import random
import xml.etree.ElementTree as ET

import numpy as np

from .. import script as S, trace, world as W
from ..core import Ctx, SIM, Quiet, attempt, begin, bounded, digest, end, values, SimCrash
from ..disk import SimDisk, REAL
from .c08 import gen_fault

EXC = ["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError"]
TYPES = {"matplotlib": ["png", "jpg", "svg", "pdf"], "plotly": ["iframe", "iframe", "png", "pdf"]}


def g_plot(rng, w, lib):
    kind = rng.choice(["arc", "fit", "fit", "fit", "search_space"])
    a = {}
    if rng.random() < 0.55:
        a["save_fig"] = True
        a["fig_type"] = "+".join(rng.sample(TYPES[lib], rng.choice([1, 1, 1, 2])))
        if rng.random() < 0.1:
            a["fig_type"] += "+" + rng.choice(["bmp", "iframe", "gif"])
        a["filename"] = "out%d" % rng.randrange(2)
    if kind == "fit":
        a["fit_coeff"] = rng.choice(["held", "held", "list", "array"])
        a["log_spectrum"] = rng.random() < 0.5
        a["plot_atlas"] = rng.random() < 0.8
        a["spectrum"] = rng.choice([None, None, "own", "int"])
        a["tolerance"] = rng.choice([5.0, 5.0, 20.0, 0.001])
    if kind == "arc":
        a["log_spectrum"] = rng.random() < 0.4
        if rng.random() < 0.3:
            a["pixel_list"] = "own"
    if kind == "search_space":
        a["top_n_candidate"] = rng.choice([1, 3, 5])
        a["weighted"] = rng.random() < 0.5
        if rng.random() < 0.5:
            a["fit_coeff"] = rng.choice(["held", "list", "array"])
    if lib == "plotly" and rng.random() < 0.6:
        a["return_jsonstring"] = True
    if rng.random() < 0.15:
        a["display"] = True
        if rng.random() < 0.3:
            a["renderer"] = "browser"
    return {"op": "plot", "kind": kind, "args": a}


def gen(rng, tier):
    w = S.gen_small(rng, kinds=("clean", "clean", "noisy", "grid"))
    S.easy(w, rng)
    lib = rng.choice(["matplotlib", "plotly"])
    prefix = [dict(S.g_fit(rng, w), over={"fit_tolerance": 20.0})]
    if rng.random() < 0.3:
        prefix.append(S.g_match(rng, w))
    if rng.random() < 0.2:
        prefix.append(S.g_atlas(rng, w))
    plots = []
    for _ in range(rng.randint(1, 3)):
        if rng.random() < 0.2:
            lib = "plotly" if lib == "matplotlib" else "matplotlib"
        p = {"lib": lib, "plot": g_plot(rng, w, lib)}
        r = rng.random()
        if p["plot"]["args"].get("save_fig") and r < 0.6:
            f = gen_fault(rng)
            if p["plot"]["args"]["fig_type"] not in ("pdf",) and f["at"] > 8:
                f["at"] = f["at"] % 8
            p["faults"] = [f]
        elif r > 0.75:
            p["cut"] = {"pos": trace.gen_pos(rng), "exc": rng.choice(EXC)}
        if p["plot"]["args"].get("display") and rng.random() < 0.4:
            p["nodisplay"] = True
        plots.append(p)
    suffix = [
        rng.choice([S.g_fit, S.g_match, S.g_refit, lambda r, w: {"op": "pairs"}, lambda r, w: {"op": "transform"}])(rng, w)
        for _ in range(rng.randint(1, 2))
    ]
    if rng.random() < 0.4:
        suffix.append({"lib": "plotly", "plot": {"op": "plot", "kind": rng.choice(["arc", "fit", "search_space"]), "args": {"return_jsonstring": True}}})
    lines = None
    if rng.random() < 0.06:
        lines = {"seed": rng.randrange(1000), "fault": gen_fault(rng, True) if rng.random() < 0.5 else None, "type": rng.choice(TYPES["matplotlib"]), "sfault": gen_fault(rng) if rng.random() < 0.5 else None}
    return {"world": w, "prefix": prefix, "plots": plots, "suffix": suffix, "spectrum": rng.choice(["float", "float", "int", None]), "ro": rng.random() < 0.1, "lines": lines}


# -- outside the library: static images of plotly, and the screen ------------------
SHOWN = []
_patched = False


def patch():
    global _patched
    if _patched:
        return
    _patched = True
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import plotly.basedatatypes
    import plotly.io as pio
    import plotly.io._kaleido as k

    def to_image(fig, format=None, *a, **kw):
        n = len(fig.to_json())
        return b"IMG" + str(format).encode() + bytes(n % 251 for _ in range(900)) + b"END"

    def show(*a, **kw):
        SHOWN.append(1)
        if SIM.active and getattr(SIM, "nodisplay", False):
            SIM.fire("display")
            raise RuntimeError("no display (simulated)")

    k.to_image = to_image
    pio.show = show
    plt.show = show


def complete(path, t, lib):
    """Is this a whole file of its type?"""
    if not os.path.exists(path):
        return "is not there"
    with REAL["open"](path, "rb") as f:
        b = f.read()
    if lib == "plotly" and t != "iframe":
        ok = b.startswith(b"IMG") and b.endswith(b"END")
    elif t == "iframe":
        ok = b.rstrip().endswith(b"</html>") and b"Plotly.newPlot" in b
    elif t == "png":
        ok = b.startswith(b"\x89PNG") and b[-8:-4] == b"IEND"
        if ok:
            import io
            from PIL import Image

            try:
                Image.open(io.BytesIO(b)).load()
            except Exception:
                ok = False
    elif t == "jpg":
        ok = b.startswith(b"\xff\xd8") and b.endswith(b"\xff\xd9")
    elif t == "pdf":
        ok = b.startswith(b"%PDF") and b.rstrip().endswith(b"%%EOF") and b"startxref" in b
    else:
        try:
            ET.fromstring(b)
            ok = True
        except ET.ParseError:
            ok = False
    return None if ok else "is incomplete (%d bytes)" % len(b)


def execute(plan):
    patch()
    ctx = Ctx()
    if not W.valid(plan["world"]):
        return ctx
    begin(0)
    SIM.disk = SimDisk(bufsize=8192)
    SIM.nodisplay = False
    # files a failed save leaves open are closed by the collector: not by chance
    gc.disable()
    try:
        _run(ctx, plan)
    finally:
        import matplotlib.pyplot as plt

        plt.close("all")
        SIM.nodisplay = False
        end()
        gc.collect()
        gc.enable()
    return ctx


def use(env, op):
    S.do(env, {"op": "use", "lib": op["lib"]})


def do(ctx, env, op):
    if "plot" in op:
        op = op["plot"]
    with Quiet():
        if op["op"] == "plot":
            return attempt(lambda: plot(env, op))
        return bounded(ctx, lambda: S.do(env, op), draws=1500, solves=60)


def plot(env, op):
    a = dict(op["args"])
    a.setdefault("display", False)
    if "filename" in a:
        a["filename"] = env.file(a["filename"])
    given = []
    held = env.c.fit_coeff
    if op["kind"] == "fit" or "fit_coeff" in a:
        how = a.get("fit_coeff", "held")
        base = S.truth_coef(env.w) if held is None else [float(v) for v in held]
        a["fit_coeff"] = held if how == "held" and held is not None else base if how == "list" else np.array(base)
        given.append(a["fit_coeff"])
    if "spectrum" in a:
        y = S.make_spectrum(env.w)
        a["spectrum"] = None if a["spectrum"] is None else (y * 10).astype(int) if a["spectrum"] == "int" else y
        given.append(a["spectrum"])
    if a.get("pixel_list") == "own":
        a["pixel_list"] = np.arange(env.w["npix"])
        given.append(a["pixel_list"])
    keep = values(given)
    env.spoiled = None
    try:
        return getattr(env.c, "plot_" + op["kind"])(**a)
    finally:
        if values(given) != keep:
            env.spoiled = op["kind"]


def state(env):
    s = S.state(env.c)
    s["candidates"] = digest(values(getattr(env.c, "candidates", None)))
    s["pairs"] = S.bulk(getattr(env.c, "pairs", None))
    s["given spectrum"] = S.bulk(env.spectrum)
    s["given peaks"] = S.bulk(env.peaks)
    s["random state"] = digest(values(np.random.get_state()[1:3]))
    for k in ("plot_with_matplotlib", "plot_with_plotly", "plotting_library"):
        s.pop(k, None)
    return s


def public(c):
    """Whatever else the calibrator shows."""
    return {
        "calibrator." + k: S.bulk(v)
        for k, v in vars(c).items()
        if not k.startswith("_") and "plot" not in k and "log" not in k
    }


def make(plan, tag):
    env = S.Env(plan["world"], tag=tag)
    if plan["spectrum"]:
        y = S.make_spectrum(plan["world"])
        if plan["spectrum"] == "int":
            y = (y * 10).astype(int)
        from rascal.calibrator import Calibrator

        env.spectrum = y
        if plan["ro"]:
            env.spectrum.flags.writeable = False
        env.c = W.make_calibrator(plan["world"], env.atlas["a"], spectrum=y)
        if plan["ro"]:
            env.c.spectrum.flags.writeable = False
    return env


def _run(ctx, plan):
    if plan["lines"]:
        arc_lines(ctx, plan["lines"])
        if ctx.violations:
            return

    def fresh(tag):
        env = make(plan, tag)
        for op in plan["prefix"]:
            do(ctx, env, op)
        return env

    env = fresh("p")
    for p in plan["plots"]:
        kind, lib, a = p["plot"]["kind"], p["lib"], p["plot"]["args"]
        tag = kind
        cut = None
        if "cut" in p:
            twin = fresh("t")
            SIM.disk.arm([])
            use(twin, p)
            _, ref = trace.reference(lambda: do(ctx, twin, p))
            cut = trace.Tracer(at=trace.resolve(p["cut"]["pos"], ref), exc=p["cut"]["exc"])
        for t in a.get("fig_type", "").split("+"):
            f = env.file(a["filename"]) + "." + t if t else None
            if f and os.path.exists(f):
                REAL["os.remove"](f)
        use(env, p)
        before, shown = state(env), public(env.c)
        SIM.disk.arm(p.get("faults", []))
        SIM.nodisplay = bool(p.get("nodisplay"))
        count = sum(SIM.fired.values())
        out = cut.run(lambda: do(ctx, env, p)) if cut else do(ctx, env, p)
        SIM.nodisplay = False
        died = isinstance(out.exc, SimCrash)
        SIM.disk.arm([])
        ctx.steps += 1
        fired = sum(SIM.fired.values()) > count
        ctx.nontrivial = ctx.nontrivial or out.ok or fired
        ctx.mark(lib, kind, a.get("fig_type"), a.get("log_spectrum"), out.brief(), fired)
        SIM.probe("%s:%s:%s" % (lib, kind, out.brief()))
        d = S.diff(before, state(env))
        after = public(env.c)
        d += [k for k in shown if k in after and after[k] != shown[k]]
        how = "drawn" if out.ok else "interrupted" if cut and cut.fired else "failed"
        if not ctx.check(not d, how + ":" + kind, lambda: "a plot (%s, %s) %s and changed %s" % (lib, kind, how, ", ".join(d))):
            return
        if not ctx.check(env.spoiled is None, how + ":given:" + kind, lambda: "a plot (%s, %s) modified the arrays it was given" % (lib, kind)):
            return
        if out.ok and a.get("save_fig"):
            for t in a["fig_type"].split("+"):
                if t not in TYPES[lib]:
                    continue
                bad = complete(env.file(a["filename"]) + "." + t, t, lib)
                if not ctx.check(bad is None, "lost:" + t, lambda: "plot_%s (%s) was asked to save %s, returned normally%s, and the file %s" % (kind, lib, t, " although " + str(dict(SIM.fired)) if fired else "", bad)):
                    return
        import matplotlib.pyplot as plt

        plt.close("all")
        if died:
            break
    # from here on, nothing shows that there ever was a plot
    twin = fresh("u")
    for op in plan["suffix"]:
        if "plot" in op:
            use(twin, op), use(env, op)
        x, y = do(ctx, twin, op), do(ctx, env, op)
        if x is None or y is None:
            ctx.check(x is y, "then:stuck", "only one of two ended")
            return
        vx, vy = values(x.value), values(y.value)
        if "plot" in op:
            vx, vy = x.value, y.value
            if not isinstance(vx, str):
                vx = vy = None
        d = S.diff(state(twin), state(env))
        d = [k for k in d if k != "random state" or op.get("op") == "fit"]
        name = op.get("op") or "plot"
        ctx.mark(name, y.brief(), digest(vy))
        if not ctx.check(
            x.brief() == y.brief() and vx == vy and not d, "then:" + name,
            lambda: "after the plots %s gives %r, without them %r; %s differ" % (name, y, x, d),
        ):
            return


def arc_lines(ctx, l):
    """The simulated arc of a line list (a plot without a calibrator)."""
    from rascal import plotting
    import matplotlib.pyplot as plt

    rng = random.Random(l["seed"])
    disk = SIM.disk
    rows, w = [], 4000.0
    for _ in range(rng.randint(4, 8)):
        w += rng.uniform(2, 9)
        rows.append("%s,%.2f,%.1f" % (rng.choice(["He", "Ne"]), w, rng.uniform(5, 90)))
    with REAL["open"](disk.path("l.csv"), "w") as f:
        f.write("# x\n" + "\n".join(rows) + "\n")
    els = ["He", "Ne"]
    kw = {"figsize": (4, 3)}
    args = dict(
        elements=els, min_atlas_wavelength=3995.0, max_atlas_wavelength=4005.0 + rng.uniform(20, 40), vacuum=True,
        linelist=disk.path("l.csv"), display=False, save_fig=True, fig_type=l["type"], filename=disk.path("arc"), fig_kwarg=kw,
        label=rng.random() < 0.5, log=rng.random() < 0.5, min_intensity=rng.choice([0.5, 20.0]),
    )
    before = values([np.random.get_state()[1:3]])
    faults = [f for f in (l["fault"], l["sfault"]) if f]
    disk.arm(faults)
    with Quiet():
        out = attempt(lambda: plotting.plot_calibration_lines(**args))
    died = isinstance(out.exc, SimCrash)
    disk.arm([])
    SIM.probe("lines:" + out.brief())
    ctx.mark("lines", out.brief())
    ctx.check(els == ["He", "Ne"] and kw == {"figsize": (4, 3)}, "lines:given", "plot_calibration_lines changed its arguments")
    ctx.check(values([np.random.get_state()[1:3]]) == before, "lines:random", "plot_calibration_lines consumed random numbers")
    if out.ok:
        bad = complete(disk.path("arc") + "." + l["type"], l["type"], "matplotlib")
        ctx.check(bad is None, "lost:lines", lambda: "plot_calibration_lines returned normally and its %s %s" % (l["type"], bad))
    plt.close("all")
