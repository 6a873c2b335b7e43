"""Command line of the simulator.

  python -m dst.run check C01 [--tier quick|thorough] [--seed N] [--runs N]
  python -m dst.run replay FILE
  python -m dst.run worker ...            (internal)
  python -m dst.run minimise FILE         (internal)
  python -m dst.run selftest [C01 ...]    determinism across processes
"""

import argparse
import collections
import fcntl
import hashlib
import importlib
import json
import os
import random
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
_now = time.time

RUN_ALARM = 60  # real seconds before a run is re-run under a line budget
LINE_BUDGET = 3_000_000
HARD_ALARM = 240


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


def load(prop):
    from . import seams

    seams.install()
    return importlib.import_module("dst.props." + prop.lower())


def plan_of(mod, prop, seed, i, tier):
    rng = random.Random("%s:%s:%s" % (prop, seed, i))
    plan = mod.gen(rng, tier)
    return json.loads(json.dumps(plan))


def run_plan(mod, plan):
    """One simulated run -> plain dict, in a forked process if the module asks."""
    if not getattr(mod, "FORK", False):
        return run_here(mod, plan)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            data = json.dumps(run_here(mod, plan)).encode()
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        part = os.read(r, 1 << 16)
        if not part:
            break
        data += part
    os.close(r)
    os.waitpid(pid, 0)
    if not data:
        return {"violations": [], "stuck": 0, "error": "the forked run ended without an answer", "fired": {}, "probes": {}, "digest": ""}
    return json.loads(data)


def from_library(e):
    from .seams import SRC_PREFIX

    tb = e.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(SRC_PREFIX):
            return True
        tb = tb.tb_next
    return False


def run_here(mod, plan):
    """One simulated run -> plain dict.  Never raises (except SystemExit)."""
    from .seams import SIM, SimStuck
    from . import trace

    res = {"violations": [], "stuck": 0}
    mod_alarm = getattr(mod, "ALARM", RUN_ALARM)

    def go():
        return mod.execute(plan)

    ctx = None
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(mod_alarm)
        try:
            ctx = go()
        finally:
            signal.alarm(0)
    except Hang:
        # Decide deterministically: the same run under a line budget.
        sys.settrace(None)
        SIM.reset()
        try:
            signal.alarm(HARD_ALARM)
            try:
                ctx = trace.Tracer(budget=LINE_BUDGET).run(go)
            finally:
                signal.alarm(0)
        except SimStuck:
            res["violations"].append(
                {
                    "cls": "hang",
                    "msg": "an operation did not return within %d lines"
                    % LINE_BUDGET,
                }
            )
        except Hang:
            res["error"] = "hang outside the library's own lines"
        except BaseException as e:
            res["error"] = "harness: %r\n%s" % (e, traceback.format_exc())
    except SimStuck as e:
        res["error"] = "harness: stray budget %r" % e
    except Exception as e:
        if from_library(e):
            # a call that this run takes for granted (setting up, reading back)
            res["violations"].append(
                {"cls": "crash:" + type(e).__name__, "msg": "a plain call raised %r" % (e,)}
            )
        else:
            res["error"] = "harness: %r\n%s" % (e, traceback.format_exc())
    except KeyboardInterrupt as e:
        res["error"] = "harness: %r\n%s" % (e, traceback.format_exc())
    finally:
        sys.settrace(None)
    if ctx is not None:
        res["violations"] += ctx.violations
        res["sig"] = hashlib.sha1(repr(ctx.sig).encode()).hexdigest()[:16]
        res["nontrivial"] = bool(ctx.nontrivial)
        res["steps"] = ctx.steps
        res["stuck"] = ctx.stuck
        res["states"] = sorted(getattr(ctx, "states", ()))[:200]
    res["fired"] = dict(SIM.fired)
    res["probes"] = dict(SIM.probes)
    if SIM.clock is not None:
        res["clock"] = [SIM.clock.reads, SIM.clock.jumps, SIM.clock.travelled]
    if os.environ.get("DST_SELF"):
        res["log"] = list(SIM.log)
    h = hashlib.sha1()
    for line in SIM.log:
        h.update(line.encode())
        h.update(b"\n")
    h.update(json.dumps(res["violations"], sort_keys=True).encode())
    res["digest"] = h.hexdigest()[:20]
    SIM.active = False
    return res


def indices(a):
    """Runs are handed out through a shared counter; a run depends on its index
    only, so which worker takes it does not matter."""
    if not a.queue:
        yield from range(a.start, a.runs, a.stride)
        return
    while True:
        with open(a.queue, "r+") as f:
            fcntl.flock(f, fcntl.LOCK_EX)
            i = int(f.read() or 0)
            f.seek(0)
            f.write(str(i + 1))
            f.flush()
        if i >= a.runs:
            return
        yield i


# -- worker --------------------------------------------------------------------
def worker(a):
    mod = load(a.prop)
    t0 = _now()
    with open(a.out, "w") as out:
        for i in indices(a):
            if _now() - t0 > a.wall:
                out.write(json.dumps({"cut": i}) + "\n")
                break
            plan = plan_of(mod, a.prop, a.seed, i, a.tier)
            r = run_plan(mod, plan)
            if r["violations"]:
                # the last bit of a solver's result can depend on where its
                # arrays lie in memory; what is seen once only is not reported
                again = {v["cls"] for v in run_plan(mod, plan)["violations"]}
                if not again & {v["cls"] for v in r["violations"]}:
                    r["flicker"] = r["violations"]
                    r["violations"] = []
            r["i"] = i
            out.write(json.dumps(r) + "\n")
            out.flush()
            if r["violations"] and not a.keep_going:
                break
        out.write(json.dumps({"done": True}) + "\n")


def child_env(hashseed=None):
    env = dict(os.environ)
    for k in (
        "OMP_NUM_THREADS",
        "OPENBLAS_NUM_THREADS",
        "MKL_NUM_THREADS",
        "NUMEXPR_NUM_THREADS",
    ):
        env[k] = "1"
    env["PYTHONHASHSEED"] = str(0 if hashseed is None else hashseed)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONPATH"] = ROOT
    env["MPLBACKEND"] = "Agg"
    env.setdefault("MPLCONFIGDIR", os.path.join(tempfile.gettempdir(), "dst-mpl"))
    env.pop("PYTHONPYCACHEPREFIX", None)
    return env


def spawn(prop, tier, seed, runs, wall, workers, keep_going=False, tmp=None):
    procs = []
    queue = os.path.join(tmp, "queue")
    with open(queue, "w") as f:
        f.write("0")
    for w in range(workers):
        out = os.path.join(tmp, "w%d.jsonl" % w)
        cmd = [
            sys.executable, "-m", "dst.run", "worker", prop,
            "--tier", tier, "--seed", str(seed), "--runs", str(runs),
            "--start", str(w), "--stride", str(workers),
            "--wall", str(wall), "--out", out, "--queue", queue,
        ] + (["--keep-going"] if keep_going else [])
        err = open(os.path.join(tmp, "w%d.err" % w), "w")
        # a different hash seed per worker: nothing may depend on it
        p = subprocess.Popen(
            cmd, cwd=ROOT, env=child_env(w * 7919 % 4294967295), stdout=err, stderr=err
        )
        procs.append((p, out, err))
    return procs


def collect(procs, limit):
    t0 = _now()
    results, errors = [], []
    for p, out, err in procs:
        left = max(1.0, limit - (_now() - t0))
        try:
            p.wait(timeout=left)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            errors.append("worker did not finish")
        err.close()
        done = False
        if os.path.exists(out):
            for line in open(out):
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                if r.get("done"):
                    done = True
                elif "cut" in r:
                    errors_cut.append(r["cut"])
                else:
                    results.append(r)
        if not done:
            errors.append(
                "worker died (rc %s): %s"
                % (p.returncode, open(err.name).read()[-1500:])
            )
    results.sort(key=lambda r: r["i"])
    return results, errors


errors_cut = []


def findings(prop):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [
        f
        for f in json.load(open(path)).get("findings", [])
        if f.get("property") == prop and f.get("status") == "known"
    ]


FLICKER = 3  # violations that show once and never again


def known(prop, v, plan=None):
    for f in findings(prop):
        if f["cls"] == v["cls"] and (
            not f.get("contains") or f["contains"] in v["msg"]
        ):
            return f
    return None


def check(a):
    prop = a.prop.upper()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = int(a.seed if a.seed is not None else os.environ.get("VERIF_SEED", "1"))
    meta = importlib.import_module("dst.meta").META[prop]
    runs = a.runs or meta["runs"][tier]
    wall = a.wall or meta["wall"][tier]
    workers = a.workers or min(8, os.cpu_count() or 8)
    print("%s tier=%s seed=%d runs=%d workers=%d" % (prop, tier, seed, runs, workers))
    sys.stdout.flush()
    t0 = _now()
    with tempfile.TemporaryDirectory(prefix="dst-check-") as tmp:
        procs = spawn(prop, tier, seed, runs, wall, workers, a.keep_going, tmp)
        results, errors = collect(procs, wall + HARD_ALARM + 120)
    took = _now() - t0
    harness = [r for r in results if r.get("error")]
    bad = [r for r in results if r["violations"]]
    fresh, seen = [], {}
    for r in bad:
        new = [v for v in r["violations"] if not known(prop, v)]
        for v in r["violations"]:
            f = known(prop, v)
            if f:
                seen[f["id"]] = f
        if new:
            fresh.append((r, new[0]))
    evidence(prop, tier, seed, meta, results, errors, took, len(fresh), workers, runs)
    errs = len(harness) + len(errors)
    for f in findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    print(
        "%d runs in %.1f s, %d non-trivial, %d stuck, %d harness errors, cut %s"
        % (
            len(results), took,
            sum(1 for r in results if r.get("nontrivial")),
            sum(r.get("stuck", 0) for r in results),
            errs,
            "yes" if errors_cut else "no",
        )
    )
    for r in results:
        if r.get("flicker"):
            print("seen once in run %d, not again: %s" % (r["i"], str(r["flicker"])[:300]))
    if fresh:
        if report(prop, tier, seed, fresh):
            return 1
        if len(fresh) > FLICKER:
            print("HARNESS ERROR: no violation could be reproduced")
            return 2
        # one bit in one run, not to be seen again: the machine's arithmetic
        evidence(prop, tier, seed, meta, results, errors, took, 0, workers, runs)
    if harness or errors:
        for r in harness[:3]:
            print("HARNESS ERROR run %d: %s" % (r["i"], r["error"]))
        for e in errors[:3]:
            print("HARNESS ERROR: %s" % e)
        return 2
    if not any(r.get("nontrivial") for r in results):
        print("HARNESS ERROR: no run was non-trivial")
        return 2
    return 0


def report(prop, tier, seed, fresh):
    """Minimise, replay in a fresh process and print; how many were reproduced."""
    mod_dir = os.path.join(ROOT, "replays")
    os.makedirs(mod_dir, exist_ok=True)
    by = collections.OrderedDict()
    for r, v in fresh:
        by.setdefault(v["cls"], []).append((r, v))
    n = 0
    for cls, found in list(by.items())[:4]:
        for r, v in found[:3]:
            path = os.path.join(
                mod_dir,
                "%s-s%d-r%d-%s.json"
                % (prop, seed, r["i"], "".join(ch if ch.isalnum() else "-" for ch in cls)[:40]),
            )
            with open(path, "w") as f:
                json.dump(
                    {"property": prop, "tier": tier, "seed": seed, "run": r["i"], "class": cls,
                     "message": v["msg"], "digest": r["digest"], "minimised": False,
                     "plan": None}, f, indent=1)
            ok, text = replayed(path)
            if ok:
                budget = 40 if tier == "quick" else 120
                try:
                    subprocess.run(
                        [sys.executable, "-m", "dst.run", "minimise", path, "--wall", str(budget)],
                        cwd=ROOT, env=child_env(0), timeout=budget + 330,
                        stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                    )
                except subprocess.TimeoutExpired:
                    pass
                ok, text = replayed(path)
            d = json.load(open(path))
            print("seed=%d run=%d class=%s: %s" % (seed, r["i"], cls, d["message"]))
            print("replay in a fresh process: %s" % ("reproduced exactly" if ok else "NOT REPRODUCED\n" + text[-500:]))
            if ok:
                print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, ROOT)))
                n += 1
                break
            os.remove(path)
        if n == 2:
            break
    return n


def replayed(path):
    rp = subprocess.run(
        [sys.executable, "-m", "dst.run", "replay", path],
        cwd=ROOT, env=child_env(12345), stdout=subprocess.PIPE, text=True,
    )
    return rp.returncode == 1, rp.stdout


def minimise(a):
    d = json.load(open(a.file))
    mod = load(d["property"])
    from . import shrink

    plan = d["plan"]
    if plan is None:
        plan = plan_of(mod, d["property"], d["seed"], d["run"], d["tier"])
    d["plan"] = plan
    save_replay(a.file, d)
    hang = d["class"] == "hang"
    if not hang:
        def fails(p):
            try:
                r = run_plan(mod, p)
            except BaseException:
                return False
            return any(v["cls"] == d["class"] for v in r["violations"])

        plan, tried = shrink.minimise(plan, fails, a.wall)
        r = run_plan(mod, plan)
        v = [v for v in r["violations"] if v["cls"] == d["class"]]
        if v:
            d.update(plan=plan, digest=r["digest"], message=v[0]["msg"], minimised=True, tried=tried)
            save_replay(a.file, d)


def save_replay(path, d):
    with open(path + ".tmp", "w") as f:
        json.dump(d, f, indent=1)
    os.replace(path + ".tmp", path)


def replay(a):
    d = json.load(open(a.file))
    mod = load(d["property"])
    plan = d["plan"]
    if plan is None:
        plan = plan_of(mod, d["property"], d["seed"], d["run"], d["tier"])
    r = run_plan(mod, plan)
    if r.get("error"):
        print("HARNESS ERROR", r["error"])
        return 2
    if a.verbose:
        from .seams import SIM

        for line in SIM.log:
            print("  " + line)
    v = [v for v in r["violations"] if v["cls"] == d["class"]]
    if not v:
        print("not reproduced: %r" % r["violations"])
        return 0
    print("class=%s: %s" % (v[0]["cls"], v[0]["msg"]))
    print("event log digest %s (recorded %s)" % (r["digest"], d["digest"]))
    print("VIOLATION property=%s replay=%s" % (d["property"], a.file))
    return 1


def evidence(prop, tier, seed, meta, results, errors, took, nviol, workers, runs):
    mod_dir = os.path.join(ROOT, "evidence")
    os.makedirs(mod_dir, exist_ok=True)
    fired, probes = collections.Counter(), collections.Counter()
    clock = [0, 0, 0.0]
    for r in results:
        fired.update(r.get("fired", {}))
        probes.update(r.get("probes", {}))
        for k in range(3):
            clock[k] += r.get("clock", [0, 0, 0.0])[k]
    nt = [r for r in results if r.get("nontrivial")]
    sigs = {r["sig"] for r in nt if r.get("sig")}
    steps = sum(r.get("steps", 0) for r in results)
    states = set()
    for r in results:
        states.update(r.get("states", ()))
    samples = []
    try:
        mod = None
        out = subprocess.run(
            [sys.executable, "-m", "dst.run", "samples", prop, ",".join(str(r["i"]) for r in nt[:2]),
             "--tier", tier, "--seed", str(seed)],
            cwd=ROOT, env=child_env(0), stdout=subprocess.PIPE, text=True, timeout=60,
        )
        samples = json.loads(out.stdout.strip().splitlines()[-1])
    except Exception as e:
        samples = [{"run": r["i"], "signature": r.get("sig")} for r in nt[:3]]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(sigs),
            "rule": meta["rule"],
            "samples": samples or [{"none": True}],
            "planned_runs": runs,
            "nontrivial_runs": len(nt),
            "seeds": "plans %s:%d:<i>, i in 0..%d" % (prop, seed, max([r["i"] for r in results], default=0)),
            "runs_per_hour": round(len(results) / max(took, 1e-3) * 3600),
            "simulated_steps": steps,
            "simulated_steps_meaning": "random draws, solver calls, disk operations and executed library lines under the scheduler",
            "simulated_clock": {"reads": clock[0], "jumps": clock[1], "seconds_travelled": round(clock[2], 3)},
            "faults_injected": dict(sorted(fired.items())),
            "probes": dict(sorted(probes.items())),
            "distinct_states": len(states),
            "inconclusive_operations": sum(r.get("stuck", 0) for r in results),
            "harness_errors": len(errors) + sum(1 for r in results if r.get("error")),
            "workers": workers,
            "real_components": meta["real"],
            "stub_components": meta["stub"],
        },
        "assumptions": meta["assumptions"],
        "wall_s": round(took, 3),
        "violations": nviol,
    }
    path = os.path.join(mod_dir, prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)


def samples(a):
    mod = load(a.prop)
    out = []
    for i in [v for v in a.index.split(",") if v]:
        out.append({"run": int(i), "plan": plan_of(mod, a.prop, a.seed, int(i), a.tier)})
    print(json.dumps(out))


def selftest(a):
    """Same plans, different processes, hash seeds and worker counts."""
    props = a.props or sorted(importlib.import_module("dst.meta").META)
    ok = True
    for prop in props:
        logs = []
        for workers in (8, 3, 5):
            with tempfile.TemporaryDirectory(prefix="dst-self-") as tmp:
                procs = spawn(prop, a.tier, a.seed, a.runs, 3600, workers, True, tmp)
                results, errors = collect(procs, 3600)
            if errors:
                print(prop, "ERRORS", errors[:1])
                ok = False
            logs.append({r["i"]: (r["digest"], r.get("sig")) for r in results})
            if os.environ.get("DST_SELF"):
                json.dump(results, open(os.environ["DST_SELF"] + str(workers), "w"), default=str)
        diff = [i for i in logs[0] if any(l.get(i) != logs[0][i] for l in logs[1:])]
        print("%s: %d plans x 3 processes sets, %d differ %s" % (prop, len(logs[0]), len(diff), diff[:10]))
        sys.stdout.flush()
        ok = ok and not diff
    return 0 if ok else 1


def main():
    ap = argparse.ArgumentParser()
    sp = ap.add_subparsers(dest="cmd", required=True)
    c = sp.add_parser("check")
    c.add_argument("prop")
    c.add_argument("--tier")
    c.add_argument("--seed", type=int)
    c.add_argument("--runs", type=int)
    c.add_argument("--wall", type=float)
    c.add_argument("--workers", type=int)
    c.add_argument("--keep-going", action="store_true")
    w = sp.add_parser("worker")
    w.add_argument("prop")
    for n, t in (("--tier", str), ("--seed", int), ("--runs", int), ("--start", int),
                 ("--stride", int), ("--wall", float), ("--out", str), ("--queue", str)):
        w.add_argument(n, type=t)
    w.add_argument("--keep-going", action="store_true")
    m = sp.add_parser("minimise")
    m.add_argument("file")
    m.add_argument("--wall", type=float, default=60)
    r = sp.add_parser("replay")
    r.add_argument("file")
    r.add_argument("-v", "--verbose", action="store_true")
    s = sp.add_parser("samples")
    s.add_argument("prop")
    s.add_argument("index")
    s.add_argument("--tier", default="quick")
    s.add_argument("--seed", type=int, default=1)
    t = sp.add_parser("selftest")
    t.add_argument("props", nargs="*")
    t.add_argument("--runs", type=int, default=64)
    t.add_argument("--tier", default="quick")
    t.add_argument("--seed", type=int, default=1)
    a = ap.parse_args()
    rc = {
        "check": check, "worker": worker, "minimise": minimise, "replay": replay,
        "samples": samples, "selftest": selftest,
    }[a.cmd](a)
    sys.exit(rc or 0)


if __name__ == "__main__":
    main()
