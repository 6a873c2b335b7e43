"""C16: the Hough accumulator accounts for every point exactly once."""

import numpy as np

from .. import trace
from ..core import Ctx, SIM, attempt, begin, end, values, digest, SimCrash
from ..disk import SimDisk
from .c08 import gen_fault

EXC = ["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError"]


def gen_pairs(rng):
    how = rng.random()
    n = rng.randint(1, 6)
    xs = [round(rng.uniform(0, 500), rng.choice([0, 3])) for _ in range(n)]
    base, d = rng.uniform(3000, 4000), rng.uniform(0.8, 3)
    ls = [round(base + d * x + rng.choice([0, 0, rng.gauss(0, 15)]), 3) for x in xs]
    if how < 0.5:  # all peaks times all lines, as the calibrator does
        return [[x, y] for x in xs for y in ls]
    return [[x, y] for x, y in zip(xs, ls)]


def gen(rng, tier):
    def limits():
        lo = rng.uniform(2800, 4000)
        s = rng.uniform(0.3, 2.0)
        return [s, s + rng.choice([0.3, 1.0, 2.5]), lo, lo + rng.choice([20, 200, 900])]

    def twins():
        """As many points, bins and counts as just before, but elsewhere."""
        o, v, pairs, brute = rng.randrange(2), limits(), gen_pairs(rng), rng.random() < 0.2
        if rng.random() < 0.5:
            v[2:] = [1000.0, 6000.0]  # nothing is cut away
        g = {"op": "generate", "o": o, "n": rng.choice([2, 3, 7]), "brute": brute}
        b = {"op": "bin", "o": o, "x": rng.randint(1, 6), "y": rng.randint(1, 6)}
        d = rng.choice([-64.0, 128.0, 512.0])
        r = rng.random()
        if r < 0.4:
            v2, p2 = [v[0], v[1], v[2] + d, v[3] + d], [[x, y + d] for x, y in pairs]
        elif r < 0.7:
            v2, p2 = [v[0], v[1], v[2], v[3]], [[x + 16.0, y] for x, y in pairs]
        else:
            v2, p2 = list(v), [[x, y + (-1) ** i * 8.0] for i, (x, y) in enumerate(pairs)]
        return [{"op": "limits", "o": o, "v": v}, dict(g, pairs=pairs), b, {"op": "limits", "o": o, "v": v2}, dict(g, pairs=p2), dict(b)]

    ops = [{"op": "limits", "o": 0, "v": limits()}, {"op": "limits", "o": 1, "v": limits()}]
    if rng.random() < 0.25:
        ops += twins()
    for _ in range(rng.randint(4, 12)):
        o = rng.randrange(2)
        r = rng.random()
        op = {"o": o}
        if r < 0.25:
            op.update(op="generate", pairs=gen_pairs(rng), n=rng.choice([2, 3, 7, 20]), brute=rng.random() < 0.35)
        elif r < 0.33:
            op.update(op="limits", v=limits(), bad=rng.random() < 0.3)
        elif r < 0.5:
            op.update(op="add", what=rng.choice(["array", "array", "ht", "empty", "wrong"]), k=rng.randrange(1 << 20), n=rng.randint(1, 5))
        elif r < 0.8:
            op.update(op="bin", x=rng.randint(1, 9), y=rng.randint(1, 9))
        elif r < 0.9:
            op.update(op="save", fmt=rng.choice(["npy", "json"]), faults=[gen_fault(rng)] if rng.random() < 0.4 else [])
        else:
            op.update(op="load", fmt=rng.choice(["npy", "json"]), faults=[gen_fault(rng, True)] if rng.random() < 0.4 else [])
        if op["op"] in ("generate", "add", "bin") and rng.random() < 0.35:
            op["cut"] = [
                {"pos": trace.gen_pos(rng), "exc": rng.choice(EXC)} for _ in range(rng.choice([1, 1, 2]))
            ]
            op["again"] = rng.random() < 0.7
        ops.append(op)
    return {"ops": ops}


class Model:
    def __init__(self):
        self.lim = None
        self.points = None  # list of (gradient, intercept)
        self.binned = None  # (points, xbins, ybins)


def linspace(a, b, n):
    return [a + (b - a) * i / (n - 1) for i in range(n)] if n > 1 else [a]


def generated(pairs, lim, n, brute):
    """(sure, maybe): points that must be there, points on a limit."""
    lo, hi, b0, b1 = lim
    sure, maybe = [], []
    if brute:
        P = sorted(pairs, key=lambda p: p[0])
        for i in range(len(P)):
            for j in range(i + 1, len(P)):
                if P[j][0] == P[i][0]:
                    continue
                g = (P[j][1] - P[i][1]) / (P[j][0] - P[i][0])
                _put(g, P[j][1] - g * P[j][0], lim, sure, maybe)
    else:
        for g in linspace(lo, hi, n):
            for x, y in pairs:
                _put(g, y - g * x, (lo - 1, hi + 1, b0, b1), sure, maybe)
    return sure, maybe


def _put(g, b, lim, sure, maybe):
    lo, hi, b0, b1 = lim
    e = 1e-7
    if g < lo - e or g > hi + e or b < b0 - 1e-5 or b > b1 + 1e-5:
        return
    edge = min(abs(g - lo), abs(g - hi)) < e or min(abs(b - b0), abs(b - b1)) < 1e-5
    (maybe if edge else sure).append((g, b))


def near(p, q):
    return abs(p[0] - q[0]) < 1e-7 * (1 + abs(p[0])) and abs(p[1] - q[1]) < 1e-6 * (1 + abs(p[1]))


def account(ctx, have, sure, maybe, tag):
    """Every sure point exactly once, nothing that is neither sure nor maybe."""
    have = sorted(map(tuple, have))
    pool = sorted([(p, True) for p in sure] + [(p, False) for p in maybe])
    used = [False] * len(pool)
    start = 0
    for h in have:
        hit = None
        while start < len(pool) and pool[start][0][0] < h[0] - 1e-6 * (1 + abs(h[0])):
            start += 1
        for k in range(start, len(pool)):
            if pool[k][0][0] > h[0] + 1e-6 * (1 + abs(h[0])):
                break
            if not used[k] and near(pool[k][0], h):
                hit = k
                break
        if not ctx.check(hit is not None, tag + ":foreign-point", lambda: "point %s is on no pair's line, outside the limits or there twice" % (h,)):
            return
        used[hit] = True
    missing = [p for (p, s), u in zip(pool, used) if s and not u]
    ctx.check(not missing, tag + ":lost-point", lambda: "%d points missing, e.g. %s" % (len(missing), missing[:2]))


def execute(plan):
    ctx = Ctx()
    begin(0)
    SIM.disk = SimDisk()
    try:
        _run(ctx, plan)
    finally:
        end()
    return ctx


def pts(h):
    return None if h.hough_points is None else np.asarray(h.hough_points, dtype=float)


def cut(op, fn, ctx):
    """Run fn, interrupted as the operation says; True if it was cut short."""
    for c in op.get("cut", []):
        ref = op["_ref"]
        at = trace.resolve(c["pos"], ref)
        if at is None:
            return False
        t = trace.Tracer(at=at, exc=c["exc"])
        out = attempt(lambda: t.run(fn))
        ctx.steps += t.n
        if t.fired:
            yield out
        else:
            return


def _run(ctx, plan):
    from rascal.houghtransform import HoughTransform

    disk = SIM.disk
    H = [HoughTransform(), HoughTransform()]
    M = [Model(), Model()]
    files = {}
    for op in plan["ops"]:
        disk.arm([])
        o = op["o"]
        h, m, k = H[o], M[o], op["op"]
        if k == "limits":
            if op.get("bad"):
                bad = list(op["v"])
                bad[int(op["v"][2]) % 4] = float("nan")
                out = attempt(lambda: h.set_constraints(*bad))
                ctx.check(not out.ok, "limits:accepted-nan", "non-finite limit accepted")
                ctx.check(
                    m.lim is None or [h.min_slope, h.max_slope, h.min_intercept, h.max_intercept] == list(m.lim),
                    "limits:partial", "a refused limit changed the others",
                )
            else:
                h.set_constraints(*op["v"])
                m.lim = tuple(op["v"])
        elif k in ("generate", "add", "bin"):
            _op(ctx, op, H, M, o)
        elif k == "save":
            if m.points is None or m.binned is None:
                continue
            disk.arm(op["faults"])
            out = attempt(lambda: h.save(filename=disk.path("f"), fileformat=op["fmt"]))
            disk.arm([])
            if out.ok:
                files[op["fmt"]] = (m.lim, list(m.points), m.binned)
            else:
                # old or new, C08's business: ask for it no more
                files.pop(op["fmt"], None)
            if isinstance(out.exc, SimCrash):
                H[:] = [HoughTransform(), HoughTransform()]
                M[:] = [Model(), Model()]
                for x, y in zip(H, M):
                    x.set_constraints(*plan["ops"][0]["v"])
                    y.lim = tuple(plan["ops"][0]["v"])
        elif k == "load":
            if op["fmt"] not in files:
                continue
            disk.arm(op["faults"])
            out = attempt(lambda: h.load(filename=disk.path("f"), filetype=op["fmt"]))
            disk.arm([])
            if out.ok:
                m.lim, m.points, m.binned = files[op["fmt"]]
                m.points = list(m.points)
                ctx.mark("loaded")
        ctx.mark(k, len(M[o].points or ()))
        for h, m in zip(H, M):
            audit(ctx, h, m)
        if ctx.violations:
            return


def _op(ctx, op, H, M, o):
    from rascal.houghtransform import HoughTransform

    h, m, k = H[o], M[o], op["op"]
    arg = None
    if k == "generate":
        P = np.array(op["pairs"], dtype=float)
        x, y = P[:, 0].copy(), P[:, 1].copy()

        def call(t):
            if op["brute"]:
                return t.generate_hough_points_brute_force(x, y)
            return t.generate_hough_points(x, y, op["n"])
    elif k == "add":
        r = np.random.RandomState(op["k"] & 0x7FFFFFFF)
        if op["what"] == "array":
            arg = np.column_stack((r.uniform(0.5, 3, op["n"]), r.uniform(3000, 4000, op["n"])))
        elif op["what"] == "ht":
            arg = H[1 - o]
        elif op["what"] == "empty":
            arg = np.zeros((0, 2))
        else:
            arg = [[1.0, 3000.0]]

        def call(t):
            return t.add_hough_points(arg)
    else:
        def call(t):
            return t.bin_hough_points(op["x"], op["y"])

    legal = not (
        (k == "generate" and (m.lim is None or (op["brute"] and len(op["pairs"]) < 2)))
        or (k == "add" and (m.points is None or op["what"] == "wrong" or (op["what"] == "ht" and M[1 - o].points is None)))
        or (k == "bin" and m.points is None)
    )
    before = values(pts(h))
    if legal and op.get("cut"):
        # a twin shows where the operation goes
        twin = HoughTransform()
        for f, v in vars(h).items():
            setattr(twin, f, v)
        _, op["_ref"] = trace.reference(lambda: attempt(lambda: call(twin)))
        want = values(pts(twin))
        n = 0
        for out in cut(op, lambda: call(h), ctx):
            n += 1
            now = values(pts(h))
            ctx.check(now in (before, want), k + ":torn", "an interrupted %s left other points" % k)
            if k == "add" and now == want and now != before:
                op["_done"] = True
                break
        op.pop("_ref", None)
        if n:
            ctx.nontrivial = True
            SIM.probe("cut:" + k)
            if op.pop("_done", False):
                m.points = list(map(tuple, pts(h).tolist()))
                return
            if not op["again"]:
                if k == "bin":
                    m.binned = None
                elif values(pts(h)) == want and want != before:
                    _learn(ctx, op, h, m, M, o)
                return
        op["cut_n"] = n
    out = attempt(lambda: call(h))
    if not legal:
        ctx.check(not out.ok or k == "generate", k + ":accepted", "%s was accepted" % op.get("what", k))
        ctx.check(values(pts(h)) == before, k + ":refused-changed", "a refused %s changed the points" % k)
        return
    if not ctx.check(out.ok, k + ":" + out.brief(), repr(out)):
        return
    _learn(ctx, op, h, m, M, o)


def _learn(ctx, op, h, m, M, o):
    """The operation took place: check it against the model."""
    k = op["op"]
    have = pts(h)
    if k == "generate":
        if not ctx.check(have.ndim == 2 and have.shape[1] == 2, "generate:shape", repr(have.shape)):
            return
        sure, maybe = generated(op["pairs"], m.lim, op["n"], op["brute"])
        account(ctx, have.tolist(), sure, maybe, "generate")
        m.points = list(map(tuple, have.tolist()))
        SIM.probe("points", len(m.points))
        ctx.nontrivial = ctx.nontrivial or len(m.points) > 0
    elif k == "add":
        if op["what"] == "ht":
            new = M[1 - o].points
        elif op["what"] == "array":
            r = np.random.RandomState(op["k"] & 0x7FFFFFFF)
            new = list(map(tuple, np.column_stack((r.uniform(0.5, 3, op["n"]), r.uniform(3000, 4000, op["n"]))).tolist()))
        else:
            new = []
        want = m.points + list(new)
        ctx.check(values(have) == values(want), "add:points", "not the old points followed by the added ones: %d, expected %d" % (len(have), len(want)))
        m.points = want
    else:
        m.binned = (list(m.points), op["x"], op["y"])


def audit(ctx, h, m):
    """The whole object against the model."""
    if m.points is not None:
        ctx.check(values(pts(h)) == values([list(p) for p in m.points]), "points:changed", "the points are not those of the history")
    if m.lim is not None:
        ctx.check(
            [h.min_slope, h.max_slope, h.min_intercept, h.max_intercept] == list(m.lim),
            "limits:changed", "limits %r" % ([h.min_slope, h.max_slope, h.min_intercept, h.max_intercept],),
        )
    if m.binned is None:
        return
    points, nx, ny = m.binned
    hist = np.asarray(h.hist, dtype=float)
    xe, ye = np.asarray(h.xedges, dtype=float), np.asarray(h.yedges, dtype=float)
    if not ctx.check(
        hist.shape == (nx, ny) and len(xe) == nx + 1 and len(ye) == ny + 1,
        "bin:shape", "%s for %s bins" % (hist.shape, (nx, ny)),
    ):
        return
    if not ctx.check(bool(np.all(np.diff(xe) > 0) and np.all(np.diff(ye) > 0)), "bin:edges", "edges not increasing"):
        return
    want = np.zeros((nx, ny))
    for g, b in points:
        i = nx - 1 if g == xe[-1] else int(np.searchsorted(xe, g, side="right")) - 1
        j = ny - 1 if b == ye[-1] else int(np.searchsorted(ye, b, side="right")) - 1
        if not ctx.check(0 <= i < nx and 0 <= j < ny, "bin:outside", "point %s is in no bin" % ((g, b),)):
            return
        want[i, j] += 1
    ctx.check(
        bool(np.array_equal(hist, want)), "bin:counts",
        lambda: "histogram counts %d of %d points, wrong in %d bins" % (hist.sum(), len(points), int(np.sum(hist != want))),
    )
    lines = np.asarray(h.hough_lines, dtype=float).reshape(-1, 2)
    if not ctx.check(len(lines) == nx * ny, "lines:number", "%d lines for %d bins" % (len(lines), nx * ny)):
        return
    cx, cy = (xe[1:] + xe[:-1]) / 2, (ye[1:] + ye[:-1]) / 2
    seen = set()
    last = None
    for g, b in lines:
        i, j = int(np.argmin(np.abs(cx - g))), int(np.argmin(np.abs(cy - b)))
        if not ctx.check(
            abs(cx[i] - g) < 1e-6 * (1 + abs(g)) and abs(cy[j] - b) < 1e-6 * (1 + abs(b)),
            "lines:not-a-centre", "line %s is not the centre of a bin" % ((g, b),),
        ):
            return
        if not ctx.check((i, j) not in seen, "lines:twice", "bin %s ranked twice" % ((i, j),)):
            return
        seen.add((i, j))
        n = want[i, j]
        if not ctx.check(last is None or n <= last, "lines:order", "a bin of %s after one of %s" % (n, last)):
            return
        last = n
    SIM.probe("audited-bins")
