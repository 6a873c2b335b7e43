"""Generated calibration worlds: peaks, lines, settings; JSON in, objects out."""

import numpy as np


def polyval(c, x):
    r = 0.0
    for a in reversed(c):
        r = r * x + a
    return r


def gen_world(rng, kind=None, deg=None, n=None, small=True, basis=None):
    """A plain-data world.

    kind: clean  every peak has its exact line, lines well separated, + decoys
          noisy  measurement noise, missing lines, stray peaks, close doublets
          grid   peaks on an even integer grid
          poor   hardly any or no consistent solution
    """
    kind = kind or rng.choice(["clean"] * 4 + ["noisy"] * 4 + ["grid"] * 2 + ["poor"])
    npix = rng.choice([400, 600, 900, 1200])
    n = n or rng.randint(6, 14)
    deg = deg if deg is not None else rng.choice([1, 2, 2, 3, 3, 4])
    w0 = round(rng.uniform(3100, 4600), 3)
    disp = round(rng.uniform(1.2, 4.0), 5)
    bend = rng.uniform(-0.012, 0.012) * disp * npix  # total non-linearity, A
    coef = [w0, disp]
    if deg >= 2:
        # zero at both ends, so that the end wavelengths stay put
        a2 = 4 * bend / npix**2
        coef = [w0, disp - a2 * npix, a2]
    if deg >= 3 and rng.random() < 0.7:
        coef.append(rng.uniform(-1, 1) * 0.004 * disp * npix / npix**3)
    # peaks
    if kind == "grid":
        step = npix // (n + 1)
        if rng.random() < 0.5:
            step = max(10, step // 10 * 10)
        start = rng.choice([0, 1, step, step // 2])
        peaks = [start + step * i for i in range(n) if start + step * i < npix]
        peaks = [float(p) for p in peaks]
    else:
        sep = npix / (n * 3.0)
        peaks = []
        tries = 0
        while len(peaks) < n and tries < 4000:
            tries += 1
            p = rng.uniform(3, npix - 4)
            if all(abs(p - q) > sep for q in peaks):
                peaks.append(round(p, 3))
        peaks.sort()
        if rng.random() < 0.2:
            peaks = [float(int(p)) for p in peaks]
    pairs = [[p, polyval(coef, p)] for p in peaks]
    strays, decoys = [], []
    if kind == "noisy":
        for pr in pairs:
            pr[1] += rng.gauss(0, rng.choice([0.02, 0.2, 0.8]))
        for _ in range(rng.randint(0, 3)):
            strays.append(round(rng.uniform(3, npix - 4), 3))
        for _ in range(rng.randint(0, 4)):
            p, w = rng.choice(pairs)
            decoys.append(w + rng.choice([-1, 1]) * rng.choice([0.0, 0.3, 1.0, 2.5, 6.0]))
    nd = rng.randint(0, 5) if kind != "poor" else rng.randint(4, 10)
    lo, hi = w0 - 50, polyval(coef, npix) + 50
    for _ in range(nd):
        w = rng.uniform(lo, hi)
        if kind == "noisy" or all(abs(w - pr[1]) > 25 for pr in pairs):
            decoys.append(round(w, 4))
    if kind == "poor":
        keep = rng.randint(0, min(3, len(pairs)))
        lost = pairs[keep:]
        pairs = pairs[:keep]
        strays += [p for p, _ in lost]
    off = rng.uniform(-40, 40)
    rt = rng.choice([150.0, 200.0, 300.0])
    lt = rng.choice([50.0, 100.0])
    world = {
        "kind": kind,
        "npix": npix,
        "coef": coef,
        "deg": deg,
        "pairs": pairs,
        "strays": strays,
        "decoys": decoys,
        "line_order": rng.choice(["sorted", "given", "reversed"]),
        "peaks_as": rng.choice(["array", "array", "list"]),
        "peaks_order": rng.choice(["sorted"] * 7 + ["reversed", "shuffled"]),
        "cal": {},
        "hough": {
            "num_slopes": rng.choice([60, 120, 250]),
            "xbins": rng.choice([12, 20, 30]),
            "ybins": rng.choice([12, 20, 30]),
            "min_wavelength": round(w0 + off, 2),
            "max_wavelength": round(polyval(coef, npix) + off, 2),
            "range_tolerance": rt,
            "linearity_tolerance": lt,
        },
        "atlas": {
            "candidate_tolerance": rng.choice([5.0, 10.0, 10.0]),
            "constrain_poly": rng.random() < 0.15,
        },
        "ransac": {
            "sample_size": rng.choice([deg + 1, deg + 1, 5, 5, 6]),
            "top_n_candidate": rng.choice([1, 3, 5, 20]),
            "filter_close": rng.random() < 0.15,
            "ransac_tolerance": rng.choice([0.5, 1.0, 5.0, 5.0]),
            "candidate_weighted": rng.random() < 0.7,
            "hough_weight": rng.choice([0.0, 1.0, 1.0, 10.0]),
            "minimum_fit_error": rng.choice([0.0, 0.0, 0.0, 1e-12, 1e-12, 1e-4, 0.05]),
        },
        "fit": {
            "max_tries": rng.choice([3, 6, 10, 20]),
            "fit_deg": deg,
            "fit_tolerance": rng.choice([1.0, 5.0, 20.0]),
            "candidate_tolerance": rng.choice([3.0, 8.0, 12.0]),
            "fit_type": basis or rng.choice(["poly"] * 6 + ["legendre", "chebyshev"]),
        },
    }
    if rng.random() < 0.5:
        world["cal"]["pixel_list"] = npix
    if rng.random() < 0.3:
        world["cal"]["num_pix"] = npix
    if rng.random() < 0.3:
        world["ransac"]["minimum_matches"] = rng.choice([rng.randint(1, n), n + 3])
    if rng.random() < 0.25:
        world["ransac"]["minimum_peak_utilisation"] = round(rng.uniform(0, 0.9), 2)
    return world


def peaks_of(world):
    return sorted(set([p for p, _ in world["pairs"]] + list(world["strays"])))


def lines_of(world):
    ls = [w for _, w in world["pairs"]] + list(world["decoys"])
    if world["line_order"] == "sorted":
        ls = sorted(ls)
    elif world["line_order"] == "reversed":
        ls = sorted(ls)[::-1]
    return ls


def np_peaks(world):
    p = peaks_of(world)
    if world.get("peaks_order") == "reversed":
        p = p[::-1]
    elif world.get("peaks_order") == "shuffled":
        p = p[1::2] + p[0::2]
    return np.array(p, dtype=float) if world["peaks_as"] == "array" else list(p)


def make_atlas(world):
    from rascal.atlas import Atlas

    a = Atlas()
    ls = lines_of(world)
    if ls:
        a.add_user_atlas(["X%d" % (i % 3) for i in range(len(ls))], list(ls))
    return a


def cal_args(world):
    a = dict(world["cal"])
    if a.get("pixel_list") is not None:
        a["pixel_list"] = np.arange(a["pixel_list"])
    a["log_level"] = world.get("log_level", "critical")
    return a


def make_calibrator(world, atlas=None, seed=None, spectrum=None):
    from rascal.calibrator import Calibrator

    c = Calibrator(np_peaks(world), spectrum=spectrum)
    a = cal_args(world)
    if seed is not None:
        a["seed"] = seed
    c.set_calibrator_properties(**a)
    c.set_hough_properties(**world["hough"])
    c.set_ransac_properties(**world["ransac"])
    c.set_atlas(atlas if atlas is not None else make_atlas(world), **world["atlas"])
    return c


def fit_args(world, **over):
    a = dict(world["fit"])
    a["progress"] = False
    a.update(over)
    return a


def valid(world):
    """Worlds the library is documented to accept."""
    return len(peaks_of(world)) >= 3 and len(lines_of(world)) >= 2
