"""C10: an atlas holds exactly the lines its history of edits implies."""

import copy

import numpy as np

from .. import trace
from ..core import Ctx, SIM, Quiet, attempt, begin, end, values, digest
from ..disk import SimDisk, REAL
from .c08 import gen_fault

EXC = ["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError"]
ELEMENTS = ["He", "Ne", "Ar", "Xe", "Hg", "longElement1"]
LISTS = ["one.csv", "two.csv"]


def gen_rows(rng):
    """A line list: unique wavelengths and unique intensities within an element."""
    rows = []
    for e in rng.sample(ELEMENTS, rng.randint(2, 4)):
        ws, xs = set(), set()
        for _ in range(rng.randint(1, 12)):
            ws.add(round(rng.uniform(2800, 6200), rng.choice([0, 2, 4])))
        while len(xs) < len(ws):
            xs.add(round(rng.uniform(0.5, 200), 1))
        rows += [[e, w, x] for w, x in zip(sorted(ws), xs)]
    if rng.random() < 0.5:
        rng.shuffle(rows)
    return rows


def g_add(rng):
    r = rng.random()
    els = rng.choice(ELEMENTS) if r < 0.3 else rng.sample(ELEMENTS, rng.randint(1, 4))
    if r > 0.9:
        els = els + els[:1]
    a = {"min_distance": rng.choice([0, 0, 0, 0.0, 5.0])}
    if rng.random() < 0.7:
        lo = round(rng.uniform(2700, 4500), 1)
        a["min_atlas_wavelength"] = lo
        a["max_atlas_wavelength"] = round(lo + rng.uniform(100, 3000), 1)
    a["vacuum"] = rng.random() < 0.6
    if not a["vacuum"] and rng.random() < 0.3:
        a.update(pressure=rng.choice([70000.0, 90000.0]), temperature=rng.choice([260.0, 290.0]), relative_humidity=rng.choice([0.0, 40.0]))
    a["min_intensity"] = rng.choice([0, 0, 10.0, 60, None])
    if rng.random() < 0.4:
        a["brightest_n_lines"] = rng.choice([None, 1, 2, 5, 1000])
    return {"op": "add", "elements": els, "list": rng.choice(LISTS), "args": a}


def g_user(rng):
    n = rng.choice([1, 1, 2, 3, 6, 0])
    ws = [round(rng.uniform(2800, 6200), 3) for _ in range(n)]
    if n > 1 and rng.random() < 0.2:
        ws[1] = ws[0]
    op = {
        "op": "user", "w": ws, "e": [rng.choice(ELEMENTS) for _ in ws],
        "x": [float(rng.randint(0, 99)) for _ in ws] if rng.random() < 0.5 else None,
        "as": rng.choice(["list", "list", "array", "tuple", "scalar"]),
        "vacuum": rng.random() < 0.3,
    }
    if rng.random() < 0.2:
        op["bad"] = rng.choice(["short", "text", "none", "xshort"])
    return op


def gen(rng, tier):
    ops = [{"op": "write", "list": f, "rows": gen_rows(rng)} for f in LISTS]
    for _ in range(rng.randint(4, 12)):
        r = rng.random()
        if r < 0.4:
            op = g_add(rng)
            f = rng.random()
            if f < 0.4:
                op["faults"] = [gen_fault(rng, True) for _ in range(rng.choice([1, 1, 2]))]
                for x in op["faults"]:
                    if x["kind"] == "crash":
                        x["kind"] = "eio"
        elif r < 0.62:
            op = g_user(rng)
            op["via"] = rng.choice(["atlas", "atlas", "cal"])
        elif r < 0.78:
            op = {"op": "remove", "k": rng.randrange(1 << 16), "off": rng.choice([0.0, 0.0, 3.7, -11.3]), "tol": rng.choice([None, 0.001, 4.0, 50.0, 400.0, 1e5]),
                  "via": rng.choice(["atlas", "atlas", "cal"])}
        elif r < 0.82:
            op = {"op": "clear", "via": rng.choice(["atlas", "cal"])}
        elif r < 0.87:
            op = {"op": "write", "list": rng.choice(LISTS), "rows": gen_rows(rng)}
        elif r < 0.91:
            op = {"op": "damage", "list": rng.choice(LISTS), "how": rng.choice(["columns", "number", "intensity", "gone", "empty"]), "k": rng.randrange(1 << 16)}
        elif r < 0.95:
            op = g_add(rng)
            op["op"] = "new"
        else:
            op = {"op": "query"}
        op["o"] = rng.randrange(2)
        if op["op"] in ("add", "user", "remove", "clear") and op.get("via") != "cal" and "faults" not in op and rng.random() < 0.35:
            op["cut"] = [{"pos": trace.gen_pos(rng), "exc": rng.choice(EXC)} for _ in range(rng.choice([1, 1, 2]))]
        if "cut" in op or "faults" in op:
            op["again"] = rng.random() < 0.6
        ops.append(op)
    return {"ops": ops, "nist": rng.choice(["atlas", "cal"]) if rng.random() < 0.05 else None}


def execute(plan):
    ctx = Ctx()
    begin(0)
    SIM.disk = SimDisk(bufsize=256)
    try:
        _run(ctx, plan)
    finally:
        end()
    return ctx


# -- what an addition has to add -------------------------------------------------
class Listing:
    """A line list as it is on the disk now."""

    def __init__(self, rows):
        self.rows = rows
        self.bad = {}
        self.broken = False  # cannot be read at all


def fmt(row):
    return "%s,%s,%s" % tuple(row)


def put(disk, name, text):
    with REAL["open"](disk.path(name), "w") as f:
        f.write(text)


def wanted(listing, op, atlas):
    """[(sure, maybe)] per element, or None when the list cannot give them."""
    from rascal import util

    a = op["args"]
    if listing is None or listing.broken:
        return None
    els = op["elements"]
    els = [els] if isinstance(els, str) else els
    lo = a.get("min_atlas_wavelength")
    hi = a.get("max_atlas_wavelength")
    if lo is None:
        lo = atlas.min_atlas_wavelength - atlas.range_tolerance
    if hi is None:
        hi = atlas.max_atlas_wavelength + atlas.range_tolerance
    cond = [a.get("temperature", 273.15), a.get("pressure", 101325.0), a.get("relative_humidity", 0.0)]
    if not a["vacuum"]:
        lo, hi = util.air_to_vacuum_wavelength((lo, hi), *cond)
    sure, maybe = [], []
    for e in els:
        if e in listing.bad:
            # a damaged intensity may go unnoticed in a line that is not wanted
            return None if listing.bad[e] == "number" else False
        rows = [r for r in listing.rows if r[0] == e]
        if any(min(abs(r[1] - lo), abs(r[1] - hi)) < 1e-6 for r in rows):
            return False
        rows = [r for r in rows if lo <= r[1] <= hi]
        mi = a["min_intensity"]
        rows = [r for r in rows if mi is None or r[2] >= mi]
        n = a.get("brightest_n_lines", 1000)
        if n is not None:
            rows = sorted(rows, key=lambda r: -r[2])[:n]
        for _, w, x in rows:
            if not a["vacuum"]:
                w = float(util.vacuum_to_air_wavelength(w, *cond))
            (maybe if a["min_distance"] and len(rows) > 1 else sure).append((e, float(w), float(x)))
    return sure, maybe


def same(p, q):
    return str(p[0]) == str(q[0]) and abs(p[1] - q[1]) <= 1e-9 * abs(q[1]) and float(p[2]) == float(q[2])


# -- the run ------------------------------------------------------------------------
def lines(a):
    es, ws, xs = a.get_elements(), a.get_lines(), a.get_intensities()
    return es, ws, xs


def _run(ctx, plan):
    from rascal import util
    from rascal.atlas import Atlas
    from rascal.calibrator import Calibrator

    disk = SIM.disk
    A = [Atlas(), Atlas(range_tolerance=800)]
    M = [[], []]  # (element, wavelength, intensity)
    C = []
    for a in A:
        c = Calibrator(np.array([10.0, 50.0, 120.0]))
        c.set_calibrator_properties(log_level="critical")
        c.set_hough_properties()
        c.set_atlas(a)
        C.append(c)
    L = {}

    def observe(tag):
        """Atlas and model agree, and all queries with each other."""
        for i, (a, m) in enumerate(zip(A, M)):
            es, ws, xs = lines(a)
            n = len(a)
            if not ctx.check(
                len(es) == len(ws) == len(xs) == n, tag + ":queries",
                lambda: "len %d, get_lines %d, get_elements %d, get_intensities %d" % (n, len(ws), len(es), len(xs)),
            ):
                return False
            now = list(zip(es, ws, xs))
            ok = len(now) == len(m) and all(same(p, q) for p, q in zip(now, m))
            if not ctx.check(ok, tag + ":lines", lambda: "atlas %d holds %s, its history implies %s" % (i, brief(now), brief(m))):
                return False
            es.append(0), ws.append(0), xs.append(0)
            if ws and not ctx.check(len(a) == n and len(a.get_lines()) == n, tag + ":aliased", "appending to a list returned by a query changed the atlas"):
                return False
        return True

    def settle(op, o, want, pin):
        """The atlas after an addition that returned: pin the order of the new lines."""
        sure, maybe = want
        es, ws, xs = lines(A[o])
        now = list(zip(es, ws, xs))
        old, new = now[: len(M[o])], now[len(M[o]):]
        if not ctx.check(
            len(now) >= len(M[o]) and all(same(p, q) for p, q in zip(old, M[o])),
            op["op"] + ":others", lambda: "adding lines changed others: %s, before %s" % (brief(old), brief(M[o])),
        ):
            return False
        pool = sorted(sure) + sorted(maybe)
        left = list(range(len(pool)))
        for p in new:
            hit = [k for k in left if same(p, pool[k])]
            if not ctx.check(bool(hit), op["op"] + ":foreign", lambda: "added %s, which is not on the list (or twice)" % (p,)):
                return False
            left.remove(hit[0])
        lost = [pool[k] for k in left if k < len(sure)]
        if not ctx.check(not lost, op["op"] + ":lost", lambda: "did not add %s" % brief(lost)):
            return False
        if not pin:
            ok = all(same(p, q) for p, q in zip(new, sure))
            if not ctx.check(ok, op["op"] + ":order", lambda: "added as %s, given as %s" % (brief(new), brief(sure))):
                return False
        M[o] = M[o] + [(str(e), float(w), float(x)) for e, w, x in new]
        return True

    if plan["nist"]:
        nist(ctx, disk, plan)
        if ctx.violations:
            return

    for op in plan["ops"]:
        disk.arm([])
        k, o = op["op"], op.get("o", 0)
        a = A[o]
        if k == "write":
            put(disk, op["list"], "\n".join(["# list"] + [fmt(r) for r in op["rows"]]) + "\n")
            L[op["list"]] = Listing(op["rows"])
            continue
        if k == "damage":
            l = L.get(op["list"])
            if l is None or l.broken:
                continue
            rows = [fmt(r) for r in l.rows]
            j = op["k"] % len(rows)
            if op["how"] == "columns":
                rows[j] = ",".join(rows[j].split(",")[:2])
                l.broken = True
            elif op["how"] in ("number", "intensity"):
                e, w, x = rows[j].split(",")
                rows[j] = ",".join([e, "1e-", x] if op["how"] == "number" else [e, w, "-"])
                l.bad = {l.rows[j][0]: op["how"]}
            elif op["how"] == "gone":
                REAL["os.remove"](disk.path(op["list"]))
                l.broken = True
                continue
            else:
                rows = []
                l.broken = True
            put(disk, op["list"], "\n".join(rows) + "\n")
            continue
        if k == "query":
            with Quiet() as q:
                out = attempt(a.list)
                import sys

                text = sys.stdout.getvalue()
            n = len([t for t in text.split("\n") if t.strip()])
            ctx.check(out.ok and n == len(M[o]), "list:count", "list() prints %d of %d lines" % (n, len(M[o])))
            continue
        before = [digest(values(lines(x))) for x in A]

        # the call, the arguments it is given and what it has to do
        if k in ("add", "new"):
            want = wanted(L.get(op["list"]), op, a if k == "add" else Atlas())
            if want is False:
                continue
            els = copy.copy(op["elements"])
            given = [els]
            args = dict(op["args"], linelist=disk.path(op["list"]))
            if k == "new":
                args.pop("brightest_n_lines", None)
                op = dict(op, args=dict(op["args"]))
                op["args"].pop("brightest_n_lines", None)
                for f in ("min_atlas_wavelength", "max_atlas_wavelength"):
                    args.setdefault(f, {"min_atlas_wavelength": 3000.0, "max_atlas_wavelength": 6000.0}[f])
                    op["args"].setdefault(f, args[f])
                want = wanted(L.get(op["list"]), op, a)
                if want is False:
                    continue
                out = attempt(lambda: Atlas(elements=els, **args))
                if not ctx.check(out.ok or want is None, "new:refused", lambda: "Atlas(%r, %r) failed: %r" % (els, args, out)):
                    return
                if out.ok:
                    A[o], M[o] = out.value, []
                    C[o].set_atlas(A[o])
                    if not ctx.check(want is not None, "new:accepted", "an atlas was made from a damaged list"):
                        return
                    if not settle(op, o, want, True):
                        return
                ctx.mark(k, out.brief(), len(M[o]))
                if not observe("new"):
                    return
                continue

            def call(x, els=els, args=args):
                return x.add(els, **args)

            def ref(x, els=els, args=args):
                return x.add(copy.copy(els), **args)

            pin = True
        elif k == "user":
            es, ws, xs = list(op["e"]), list(op["w"]), None if op["x"] is None else list(op["x"])
            want = ([], [])
            for e, w, x in zip(es, ws, xs or [0] * len(ws)):
                v = float(util.vacuum_to_air_wavelength(w)) if op["vacuum"] else w
                want[0].append((e, v, float(x)))
            bad = op.get("bad")
            if bad == "short" and len(ws) > 1:
                es = es[:-1]
            elif bad == "text" and ws:
                ws[-1] = "w"
            elif bad == "none" and ws:
                ws[-1] = None
            elif bad == "xshort" and xs and len(xs) > 1:
                xs = xs[:-1]
            else:
                bad = None
            if bad:
                # a single line's "wavelength" cannot be compared with anything
                want = None if len(op["w"]) > 1 or op["vacuum"] else False
            if not op["w"]:
                want = ([], []) if want is not False else False
            if want is False:
                continue
            if op["as"] == "array" and not bad:
                es, ws = np.array(es), np.array(ws, dtype=float)
                xs = None if xs is None else np.array(xs)
            elif op["as"] == "tuple":
                es, ws = tuple(es), tuple(ws)
            elif op["as"] == "scalar" and len(ws) == 1 and not bad:
                es, ws = es[0], ws[0]
                xs = None if xs is None else xs[0]
            given = [es, ws, xs]

            def call(x, given=given, vac=op["vacuum"]):
                return x.add_user_atlas(given[0], given[1], given[2], vacuum=vac)

            def ref(x, given=given, vac=op["vacuum"]):
                g = copy.deepcopy(given)
                return x.add_user_atlas(g[0], g[1], g[2], vacuum=vac)

            pin = False
        elif k == "remove":
            pool = M[o] or [("", 4000.0, 0)]
            w = pool[op["k"] % len(pool)][1] + op["off"]
            tol = 10 if op["tol"] is None else op["tol"]
            if any(abs(abs(l[1] - w) - tol) < 1e-9 for l in M[o]):
                continue
            after = [l for l in M[o] if not abs(l[1] - w) < tol]
            given, want = [], None

            def call(x, w=w, tol=op["tol"]):
                return x.remove_atlas_lines_range(w) if tol is None else x.remove_atlas_lines_range(w, tol)

            ref = call
        else:
            after, given, want = [], [], None

            def call(x, cal=op.get("via") == "cal"):
                return x.clear_atlas() if hasattr(x, "clear_atlas") else x.clear()

            ref = call
        keep = values(given)
        target = C[o] if op.get("via") == "cal" else a
        cuts = list(op.get("cut", []))
        faulty = bool(op.get("faults"))
        tries = 0
        while True:
            fired = None
            disk.arm(op["faults"] if faulty else [])
            count = sum(SIM.fired.values())
            if cuts:
                cut = cuts.pop(0)
                disk.arm([])
                twin = copy.deepcopy(a)
                _, t = trace.reference(lambda: attempt(lambda: ref(twin)))
                t = trace.Tracer(at=trace.resolve(cut["pos"], t), exc=cut["exc"])
                out = attempt(lambda: t.run(lambda: call(target)))
                fired = t.fired
            else:
                out = attempt(lambda: call(target))
            disk.arm([])
            ctx.steps += 1
            ctx.mark(k, out.brief(), fired, len(M[o]))
            ctx.nontrivial = ctx.nontrivial or bool(fired) or sum(SIM.fired.values()) > count or k in ("remove", "add")
            if not ctx.check(values(given) == keep, k + ":caller", "%s changed the caller's lists" % k):
                return
            if k in ("add", "user"):
                if out.ok:
                    if not ctx.check(want is not None, k + ":accepted", "a damaged or refused list was accepted"):
                        return
                    if not settle(op, o, want, pin):
                        return
                elif fired and want is not None and sum(map(len, want)) and len(a) != len(M[o]):
                    # struck when all was done: then everything must be there
                    SIM.probe("complete-nonetheless")
                    if not settle(op, o, want, pin):
                        return
                elif k == "user" and not fired and not faulty:
                    if not ctx.check(want is None or not op["w"], "user:refused", lambda: "valid lines refused: %r" % out):
                        return
                elif k == "add" and not fired and not faulty:
                    if not ctx.check(want is None, "add:refused", lambda: "valid list refused: %r" % out):
                        return
            elif out.ok or (fired and len(a) != len(M[o])):
                M[o] = after
            elif not fired:
                ctx.bad(k + ":failed", "%s failed: %r" % (k, out))
                return
            if not observe(k if out.ok else k + "-failed"):
                return
            other = 1 - o
            if not ctx.check(digest(values(lines(A[other]))) == before[other], k + ":other-atlas", "%s on one atlas changed another" % k):
                return
            if out.ok or not (op.get("again") and tries < 4):
                break
            tries += 1
            if len(a) != 0 and fired and out.exc is not None and k in ("add", "user") and len(a) != len(M[o]):
                break
            if not cuts:
                faulty = False
                if tries > 2 or (fired is None and not op.get("faults")):
                    break
        if k == "user" and out.ok and isinstance(given[1], (list, np.ndarray)) and len(given[1]):
            # what the caller does with his lists afterwards is his business
            given[0][0], given[1][0] = "Q", 1.0
            if given[2] is not None:
                given[2][0] = 77.0
            if not observe("caller-edits"):
                return
    observe("end")


def brief(ls):
    ls = [(str(e), round(float(w), 4), float(x)) for e, w, x in ls]
    return str(ls if len(ls) < 7 else ls[:3] + ["... %d ..." % (len(ls) - 5)] + ls[-2:])


def nist(ctx, disk, plan):
    """The packaged line list, read on a bad disk."""
    import os
    import rascal
    from rascal.atlas import Atlas
    from rascal.calibrator import Calibrator

    path = os.path.join(os.path.dirname(rascal.__file__), "arc_lines", "nist_clean.csv")
    disk.track(path, "nist")
    disk.bufsize = 1 << 16
    add = next((op for op in plan["ops"] if op["op"] == "add"), None)
    if add is None:
        return
    args = dict(add["args"], min_distance=0, brightest_n_lines=None)
    els = add["elements"] if isinstance(add["elements"], list) else [add["elements"]]
    els = [e for e in els if len(e) == 2] or ["Ar"]
    rows = [[f[:12] for f in r.split(",")] for r in REAL["open"](path, encoding="utf-8").read().split("\n") if r]
    listing = Listing([[e, float(w), float(x)] for e, w, x in rows if e in els])
    a = Atlas()
    a.add_user_atlas(["U"], [4321.0])
    op = dict(add, elements=els, args=args)
    c = None
    if plan["nist"] == "cal":
        c = Calibrator(np.array([10.0, 50.0, 120.0]))
        c.set_calibrator_properties(log_level="critical")
        c.set_hough_properties(min_wavelength=3900.0, max_wavelength=5800.0, range_tolerance=350.0)
        if len(els) > 1:
            c.set_atlas(a)  # otherwise it makes its own
        args = {k: v for k, v in args.items() if k != "brightest_n_lines"}
        op["args"] = dict(args)
        op["args"].setdefault("min_atlas_wavelength", 3550.0)
        op["args"].setdefault("max_atlas_wavelength", 6150.0)
    want = wanted(listing, op, a)
    disk.arm(add.get("faults", []))
    with Quiet():
        out = attempt(lambda: c.add_atlas(els, **args) if c else a.add(els, **args))
    disk.arm([])
    own = c is not None and c.atlas is not a
    if own:
        a = c.atlas
        if not out.ok:
            ctx.check(a is None or len(a) == 0, "nist:partial", "adding failed and left lines")
    n = 0 if a is None else len(a)
    if out.ok and want:
        pool = ([] if own else [("U", 4321.0, 0.0)]) + want[0]
        have = list(zip(*lines(a)))
        ok = len(have) == n == len(pool) and all(same(p, q) for p, q in zip(sorted(have), sorted(pool)))
        ctx.check(ok, "nist:lines", lambda: "the packaged list gave %s, it holds %s" % (brief(have), brief(pool)))
    if not out.ok and not own:
        ctx.check(n == 1, "nist:partial", lambda: "adding failed (%r) and left %d lines" % (out, n - 1))
    ctx.mark("nist", plan["nist"], out.brief(), n)
    disk.bufsize = 256
