"""Oracles over calibration results; public attributes and returned values only."""

import numpy as np

from .core import close, values

PV = np.polynomial.polynomial.polyval
HYP = {  # evaluation of a hypothesis, by the seam it was fitted at
    "polyfit": np.polynomial.polynomial.polyval,
    "legfit": np.polynomial.legendre.legval,
    "chebfit": np.polynomial.chebyshev.chebval,
}
NAMES = (
    "fit_coeff",
    "matched_peaks",
    "matched_atlas",
    "rms",
    "residual",
    "peak_utilisation",
    "atlas_utilisation",
)


def check_fit_result(
    ctx,
    out,
    c,
    peaks,
    lines,
    deg,
    tol,
    min_matches=0,
    min_util=0.0,
    min_err=0.0,
    hyps=None,
    tag="fit",
    start=None,
):
    """The value returned by a successful fit, against what it was given."""
    ok = ctx.check(
        isinstance(out, tuple) and len(out) == 7,
        tag + ":shape",
        lambda: "not a 7-tuple: %r" % (out,),
    )
    if not ok:
        return False
    coef, mp, ma, rms, res, pu, au = out
    coef = np.asarray(coef, dtype=float)
    mp = np.asarray(mp, dtype=float)
    ma = np.asarray(ma, dtype=float)
    res = np.asarray(res, dtype=float)
    n = len(mp)
    b = len(ctx.violations)
    ctx.check(
        len(ma) == n and len(res) == n,
        tag + ":lengths",
        "%d peaks, %d lines, %d residuals" % (n, len(ma), len(res)),
    )
    if len(ctx.violations) > b:
        return False
    ctx.check(
        set(mp.tolist()) <= set(map(float, peaks)),
        tag + ":foreign-peak",
        lambda: "matched peaks not supplied: %s"
        % sorted(set(mp.tolist()) - set(map(float, peaks))),
    )
    ctx.check(
        set(ma.tolist()) <= set(map(float, lines)),
        tag + ":foreign-line",
        lambda: "matched lines not in the atlas: %s"
        % sorted(set(ma.tolist()) - set(map(float, lines))),
    )
    ctx.check(
        len(set(mp.tolist())) == n,
        tag + ":peak-twice",
        lambda: "a peak is matched twice: %s" % mp.tolist(),
    )
    ctx.check(
        len(set(ma.tolist())) == n,
        tag + ":line-twice",
        lambda: "a line is matched twice: %s" % ma.tolist(),
    )
    ctx.check(n > deg, tag + ":too-few", "%d pairs for degree %d" % (n, deg))
    mm = min(min_matches or 0, len(peaks), len(lines))
    ctx.check(
        n >= mm, tag + ":min-matches", "%d matches, minimum is %s" % (n, mm)
    )
    ctx.check(
        n >= (min_util or 0.0) * len(peaks) - 1e-9,
        tag + ":min-utilisation",
        "%d of %d peaks, minimum %s" % (n, len(peaks), min_util),
    )
    ctx.check(
        rms >= (min_err or 0.0) * (1 - 1e-9),
        tag + ":min-error",
        "rms %r under the minimum %r" % (rms, min_err),
    )
    ctx.check(
        len(coef) == deg + 1 and bool(np.all(np.isfinite(coef))),
        tag + ":coefficients",
        "coefficients %r for degree %d" % (coef.tolist(), deg),
    )
    if len(coef):
        r = PV(mp, coef) - ma
        want = np.where(np.abs(r) > tol, tol, r)
        ctx.check(
            bool(np.allclose(np.abs(res), np.abs(want), rtol=1e-6, atol=1e-6)),
            tag + ":residuals",
            lambda: "residuals %s, the coefficients give %s"
            % (res.tolist(), want.tolist()),
        )
    ctx.check(
        bool(np.isclose(rms, np.sqrt(np.mean(res**2)), rtol=1e-6, atol=1e-9)),
        tag + ":rms",
        "rms %r, residuals give %r" % (rms, float(np.sqrt(np.mean(res**2)))),
    )
    check_coefficients(ctx, coef, mp, ma, deg, tag)
    ctx.check(
        np.isclose(pu, n / len(peaks)),
        tag + ":peak-utilisation",
        "%r for %d of %d" % (pu, n, len(peaks)),
    )
    ctx.check(
        np.isclose(au, n / len(lines)),
        tag + ":atlas-utilisation",
        "%r for %d of %d" % (au, n, len(lines)),
    )
    if hyps:
        ok = sound = False
        for site, h in hyps:
            if np.all(np.abs(HYP[site](mp, h) - ma) < tol + 1e-6):
                ok = True
                sound = rises(HYP[site], h, (mp.min(), mp.max())) and (
                    start is None or site != "polyfit" or start[0] - 1e-6 <= h[0] <= start[1] + 1e-6
                )
                if sound:
                    break
        ctx.check(
            ok,
            tag + ":no-hypothesis",
            lambda: "no sample drawn has all returned pairs within %r: %s"
            % (tol, list(zip(mp.tolist(), ma.tolist()))),
        )
        ctx.check(
            sound or not ok,
            tag + ":unsound-hypothesis",
            lambda: "the samples that have all returned pairs within %r fall somewhere "
            "between the peaks, or start outside the range: %s" % (tol, list(zip(mp.tolist(), ma.tolist()))),
        )
    for name, v in zip(NAMES, out):
        ctx.check(
            values(getattr(c, name, "<absent>")) == values(v),
            tag + ":stored-" + name,
            lambda: "stored %r, returned %r" % (getattr(c, name, None), v),
        )
    return len(ctx.violations) == b


def rises(f, h, span):
    return bool(np.all(np.diff(f(np.arange(span[0], span[1], 1.0), h)) > -1e-9))


def ls_prediction(mp, ma, deg):
    """Least-squares polynomial values at mp, well conditioned."""
    x = np.asarray(mp, dtype=float)
    lo, hi = x.min(), x.max()
    t = (2 * x - lo - hi) / max(hi - lo, 1e-9)
    v = np.polynomial.chebyshev.chebvander(t, deg)
    sol = np.linalg.lstsq(v, np.asarray(ma, dtype=float), rcond=None)[0]
    return v @ sol


def check_coefficients(ctx, coef, mp, ma, deg, tag):
    """The coefficients are the (robust = least-squares, for inliers) fit."""
    if len(mp) <= deg or len(coef) != deg + 1:
        return
    want = ls_prediction(mp, ma, deg)
    got = PV(np.asarray(mp, dtype=float), coef)
    worst = float(np.max(np.abs(want - got)))
    scale = float(np.max(np.abs(want - np.asarray(ma, dtype=float))))
    ctx.check(
        worst <= 0.25 + 0.5 * scale,
        tag + ":not-the-fit",
        lambda: "coefficients are %.4g A away from the fit of the pairs "
        "(residuals up to %.4g)" % (worst, scale),
    )
    return worst
