"""Histories of calls on one calibrator, as plain data.

An ``Env`` holds a calibrator and everything the caller handed to it; ``do``
performs one operation of a history.  The same history can be run against any
number of fresh environments.
"""

import copy

import numpy as np

from . import world as W
from .core import SIM, bulk, values, rng_state


class Env:
    def __init__(self, w, tag="", rng=None, spectrum=False, bare=False):
        self.w = w
        self.tag = tag
        # how this environment seeds a fit: default the global generator
        self.rng = rng or rng_state
        self.atlas = {"a": W.make_atlas(w)}
        self.spectrum = make_spectrum(w) if spectrum else None
        self.peaks = W.np_peaks(w)
        if bare:
            from rascal.calibrator import Calibrator

            self.c = Calibrator(self.peaks, spectrum=self.spectrum)
        else:
            self.c = W.make_calibrator(w, self.atlas["a"], spectrum=self.spectrum)

    def file(self, name):
        return SIM.disk.path(self.tag + name)


def make_spectrum(w):
    n = w["npix"]
    x = np.arange(n, dtype=float)
    y = 3.0 + 0.5 * np.sin(x / 17.0)
    for i, p in enumerate(W.peaks_of(w)):
        y += (20.0 + 7.0 * (i % 5)) * np.exp(-((x - p) ** 2) / 8.0)
    return y - 2.6  # some values are negative


def truth_coef(w, deg=None):
    c = [float(v) for v in w["coef"]]
    n = (w["deg"] if deg is None else deg) + 1
    return (c + [0.0] * n)[:n]


def do(env, op):
    """Perform one operation; returns what the library returned."""
    c, k = env.c, op["op"]
    if k == "cal":
        a = dict(op["args"])
        if a.get("pixel_list") is not None:
            a["pixel_list"] = np.arange(a["pixel_list"])
        return c.set_calibrator_properties(**a)
    if k == "hough":
        return c.set_hough_properties(**op["args"])
    if k == "ransac":
        return c.set_ransac_properties(**op["args"])
    if k == "set_atlas":
        a = env.atlas.get(op.get("which", "a"))
        return c.set_atlas(a, **op.get("args", {}))
    if k == "atlas_user":
        els = ["U%d" % (i % 2) for i in range(len(op["w"]))]
        target = c if op.get("via") == "cal" else env.atlas[op.get("which", "a")]
        kw = dict(op.get("args", {})) if target is c else {}
        return target.add_user_atlas(els, list(op["w"]), **kw)
    if k == "atlas_swap":
        # as many lines as before, but others
        a = c.atlas or env.atlas["a"]
        n = len(a)
        a.remove_atlas_lines_range(op["w"], op["tol"])
        more = [op["w"] + op["by"] * (i + 1) for i in range(n - len(a))]
        return a.add_user_atlas(["S"] * len(more), more) if more else None
    if k == "atlas_add":
        target = env.atlas[op.get("which", "a")]
        return target.add(op["elements"], linelist=env.file("list.csv"), **op.get("args", {}))
    if k == "atlas_remove":
        target = c if op.get("via") == "cal" else env.atlas[op.get("which", "a")]
        return target.remove_atlas_lines_range(op["w"], op["tol"])
    if k == "atlas_clear":
        target = c.clear_atlas if op.get("via") == "cal" else env.atlas[op.get("which", "a")].clear
        return target()
    if k == "atlas_list":
        from .core import Quiet

        with Quiet():
            return c.list_atlas()
    if k == "transform":
        return c.do_hough_transform(brute_force=op.get("brute", False))
    if k == "ht_add":
        return c.ht.add_hough_points(np.array(op["points"], dtype=float))
    if k == "ht_bin":
        return c.ht.bin_hough_points(op["x"], op["y"])
    if k == "save":
        return c.save_hough_transform(filename=env.file(op["file"]), fileformat=op["fmt"])
    if k == "save_mem":
        return c.save_hough_transform(fileformat=op["fmt"], to_disk=False)
    if k == "load":
        return c.load_hough_transform(filename=env.file(op["file"]), filetype=op["fmt"])
    if k == "known":
        return c.set_known_pairs(op["pix"], op["wave"])
    if k == "fit":
        if op.get("seed") is not None:
            env.rng(op["seed"])
        args = W.fit_args(env.w, **op.get("over", {}))
        if op.get("fit_coeff") is not None:
            args["fit_coeff"] = np.array(op["fit_coeff"], dtype=float)
        return c.fit(**args)
    if k == "match":
        a = dict(op.get("args", {}))
        if a.get("fit_coeff") is not None:
            a["fit_coeff"] = np.array(a["fit_coeff"], dtype=float)
        return c.match_peaks(**a)
    if k == "refit":
        a = dict(op.get("args", {}))
        return c.manual_refit(**a)
    if k == "pair_add":
        return c.add_pix_wave_pair(op["pix"], op["wave"])
    if k == "pair_remove":
        return c.remove_pix_wave_pair(op["at"])
    if k == "pairs":
        return c.get_pix_wave_pairs()
    if k == "plot":
        a = dict(op.get("args", {}))
        a.setdefault("display", False)
        if a.get("filename") is not None:
            a["filename"] = env.file(a["filename"])
        if a.get("spectrum") is not None:
            a["spectrum"] = env.spectrum
        return getattr(c, "plot_" + op["kind"])(**a)
    if k == "which":
        return c.which_plotting_library()
    if k == "use":
        return c.use_matplotlib() if op["lib"] == "matplotlib" else c.use_plotly()
    raise ValueError(k)


# -- state a user can see -------------------------------------------------------
CONFIG = (
    "num_pix", "pixel_list", "plotting_library", "constrain_poly",
    "num_slopes", "xbins", "ybins", "min_wavelength", "max_wavelength",
    "range_tolerance", "linearity_tolerance", "min_slope", "max_slope",
    "min_intercept", "max_intercept",
    "sample_size", "top_n_candidate", "linear", "filter_close", "ransac_tolerance",
    "candidate_weighted", "hough_weight", "minimum_matches",
    "minimum_peak_utilisation", "minimum_fit_error",
    "candidate_tolerance", "plot_with_matplotlib", "plot_with_plotly",
    "pix_known", "wave_known",
)
HELD = (
    "fit_deg", "fit_type", "fit_coeff", "matched_peaks", "matched_atlas", "rms",
    "residual", "residuals", "peak_utilisation", "atlas_utilisation",
)
HOUGH = (
    "hough_points", "hist", "xedges", "yedges", "min_slope", "max_slope",
    "min_intercept", "max_intercept", "hough_lines",
)


def atlas_state(a):
    if a is None:
        return None
    return values(
        [
            [l.wavelength, l.element, l.intensity, l.source]
            for l in a.atlas_lines
        ]
        + [[a.min_atlas_wavelength, a.max_atlas_wavelength]]
    )


def config(c):
    return {f: bulk(getattr(c, f, None)) for f in CONFIG}


def held(c):
    return {f: bulk(getattr(c, f, None)) for f in HELD}


def hough(c):
    d = {"ht." + f: bulk(getattr(c.ht, f, None)) for f in HOUGH}
    d["hough_points"] = bulk(c.hough_points)
    d["hough_lines"] = bulk(c.hough_lines)
    return d


def inputs(c):
    return {"peaks": bulk(c.peaks), "spectrum": bulk(c.spectrum), "atlas": atlas_state(c.atlas)}


def state(c):
    s = config(c)
    s.update(held(c))
    s.update(hough(c))
    s.update(inputs(c))
    return s


def diff(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))


# -- generating histories ---------------------------------------------------------
def gen_small(rng, kinds=("clean", "clean", "noisy"), **kw):
    """A world whose fits take milliseconds."""
    w = W.gen_world(rng, kind=rng.choice(kinds), deg=rng.choice([1, 2, 2, 3]), n=rng.randint(6, 10), **kw)
    w["fit"]["max_tries"] = rng.choice([2, 4, 6])
    w["fit"]["candidate_tolerance"] = rng.choice([6.0, 10.0, 14.0])
    w["ransac"]["minimum_fit_error"] = 0.0
    w["ransac"].pop("minimum_peak_utilisation", None)
    if w["ransac"].get("minimum_matches", 0) > 4:
        w["ransac"]["minimum_matches"] = 4
    w["hough"]["num_slopes"] = rng.choice([40, 60, 120])
    w["hough"]["xbins"] = rng.choice([8, 12, 20])
    w["hough"]["ybins"] = rng.choice([8, 12, 20])
    if not w["strays"] and rng.random() < 0.08:
        # the experimental non-linear search needs as many lines as peaks
        w["decoys"] = []
        w["ransac"]["linear"] = False
        w["peaks_as"] = "array"
    return w


def easy(w, rng):
    """Make it likely that a short search finds a solution."""
    w["fit"]["max_tries"] = 6
    w["fit"]["fit_tolerance"] = 20.0
    w["ransac"].update(
        sample_size=w["deg"] + rng.choice([1, 1, 2]), ransac_tolerance=rng.choice([5.0, 5.0, 2.0]),
        top_n_candidate=rng.choice([3, 5]),
    )
    w["ransac"].pop("minimum_matches", None)


def g_hough(rng, w):
    h = w["hough"]
    return {"op": "hough", "args": rng.choice([
        {"num_slopes": rng.choice([30, 50, 90])},
        {"xbins": rng.choice([6, 10, 15]), "ybins": rng.choice([6, 10, 15])},
        {"min_wavelength": round(h["min_wavelength"] + rng.uniform(-40, 40), 2)},
        {"max_wavelength": round(h["max_wavelength"] + rng.uniform(-40, 40), 2)},
        {"range_tolerance": rng.choice([150.0, 200.0, 300.0])},
        {"linearity_tolerance": rng.choice([40.0, 80.0, 120.0])},
        dict(h),
    ])}


def g_ransac(rng, w):
    return {"op": "ransac", "args": rng.choice([
        {"ransac_tolerance": rng.choice([0.5, 2.0, 6.0])},
        {"sample_size": rng.randint(3, 6)},
        {"top_n_candidate": rng.choice([1, 3, 5])},
        {"minimum_matches": rng.randint(1, 5)},
        {"candidate_weighted": rng.random() < 0.5},
        {"hough_weight": rng.choice([0.0, 0.5, 2.0])},
        {"filter_close": rng.random() < 0.3},
        {"minimum_fit_error": rng.choice([0.0, 1e-12])},
    ])}


def g_cal(rng, w):
    return {"op": "cal", "args": rng.choice([
        {"pixel_list": w["npix"] + rng.choice([0, 0, 20, 60])},
        {"plotting_library": rng.choice(["matplotlib", "plotly"])},
        {"log_level": rng.choice(["critical", "debug", "info"])},
        {},
    ])}


def g_atlas(rng, w):
    ls = W.lines_of(w)
    via = rng.choice(["atlas", "cal"])
    r = rng.random()
    if r < 0.4:
        return {"op": "atlas_remove", "w": rng.choice(ls), "tol": rng.choice([0.5, 5.0, 20.0]), "via": via}
    if r < 0.5:
        return {"op": "atlas_swap", "w": rng.choice(ls), "tol": rng.choice([0.5, 0.5, 5.0]), "by": rng.choice([-7.0, 3.0, 40.0])}
    if r < 0.75:
        return {"op": "atlas_user", "via": via, "w": [round(rng.choice(ls) + rng.uniform(-80, 80), 3) for _ in range(rng.randint(1, 3))],
                "args": dict(w["atlas"])}
    return {"op": "set_atlas", "args": {"candidate_tolerance": rng.choice([5.0, 10.0]), "constrain_poly": rng.random() < 0.2}}


def g_known(rng, w):
    n = rng.choice([0, 1, 1, 2])
    ps = rng.sample(w["pairs"], min(n, len(w["pairs"])))
    return {"op": "known", "pix": [p for p, _ in ps], "wave": [v for _, v in ps]}


def g_fit(rng, w):
    over = {}
    if rng.random() < 0.25:
        over["fit_deg"] = rng.randint(1, 3)
    if rng.random() < 0.25:
        over["fit_type"] = rng.choice(["poly", "legendre", "chebyshev"])
    if rng.random() < 0.2:
        over["max_tries"] = rng.choice([1, 3, 8])
    if rng.random() < (0.85 if w["ransac"].get("linear") is False else 0.07):
        # a starting solution; its degree is that of the fit
        g = (list(w["coef"]) + [0.0] * 5)[: over.get("fit_deg", w["deg"]) + 1]
        over["fit_coeff"] = [g[0] + rng.uniform(-15, 15)] + g[1:]
        over["fit_type"] = "poly"
    return {"op": "fit", "seed": rng.randrange(1 << 30), "over": over}


def g_match(rng, w, bad=False):
    a = {"tolerance": rng.choice([1.0, 3.0, 8.0, 8.0])}
    if rng.random() < 0.5:
        a["fit_coeff"] = truth_coef(w)
    if rng.random() < 0.4:
        a["fit_deg"] = rng.randint(1, 4)
    if rng.random() < 0.15:
        a["refine"] = True
        if rng.random() < 0.4:
            a["n_delta"] = rng.randint(1, 3)
        if rng.random() < 0.3:
            a["robust_refit"] = False
    return {"op": "match", "args": a}


def g_refit(rng, w):
    a = {}
    r = rng.random()
    if r < 0.4:
        a["degree"] = rng.randint(1, 3)
    if r > 0.7 and len(w["pairs"]) > 4:
        ps = rng.sample(w["pairs"], rng.randint(3, len(w["pairs"])))
        if rng.random() < 0.8:
            ps.sort()
        a["matched_peaks"] = [p for p, _ in ps]
        a["matched_atlas"] = [v for _, v in ps]
        a["degree"] = rng.randint(1, 2)
    return {"op": "refit", "args": a}


def g_pair(rng, w):
    r = rng.random()
    if r < 0.5:
        p = round(rng.uniform(-5, w["npix"] + 5), 2)
        if rng.random() < 0.4 and w["pairs"]:
            p, _ = rng.choice(w["pairs"])
        return {"op": "pair_add", "pix": p, "wave": round(W.polyval(w["coef"], p) + rng.gauss(0, 0.3), 3)}
    if r < 0.85:
        return {"op": "pair_remove", "at": rng.randrange(0, 8)}
    return {"op": "pairs"}
