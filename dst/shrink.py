"""Generic minimisation of a JSON plan: drop list items, simplify values."""

import copy
import time

# lists whose items may be dropped, wherever they occur in the plan
LISTS = {
    "ops", "faults", "pairs", "strays", "decoys", "win", "x", "y", "steps",
    "tasks", "sched", "interrupts", "history", "adds", "clock", "w", "chain",
    "lines", "points", "peaks", "then", "edits",
}
# values to try for a key, most simple first
SIMPLER = {
    "adv": [None],
    "repeat": [1],
    "kind_adv": [None],
    "peaks_as": ["array"],
    "peaks_order": ["sorted"],
    "line_order": ["sorted"],
    "cal": [{}],
    "over": [{}],
    "interrupt": [None],
    "fault": [None],
}
SHRINK_INT = {"max_tries", "num_slopes", "xbins", "ybins"}


def paths(o, path=()):
    if isinstance(o, dict):
        for k in o:
            yield path + (k,), o[k]
            yield from paths(o[k], path + (k,))
    elif isinstance(o, list):
        for i, v in enumerate(o):
            yield from paths(v, path + (i,))


def get(o, path):
    for k in path:
        o = o[k]
    return o


def put(o, path, v):
    o = copy.deepcopy(o)
    get(o, path[:-1])[path[-1]] = v
    return o


def candidates(plan):
    found = list(paths(plan))
    for path, v in found:
        if path[-1] in LISTS and isinstance(v, list) and v:
            n = len(v)
            size = n
            while size >= 1:
                for s in range(0, n, size):
                    yield put(plan, path, v[:s] + v[s + size :])
                size //= 2
    for path, v in found:
        k = path[-1]
        if k in SIMPLER:
            for s in SIMPLER[k]:
                if v != s:
                    yield put(plan, path, s)
        if k in SHRINK_INT and isinstance(v, int) and v > 2:
            yield put(plan, path, max(2, v // 2))
            yield put(plan, path, v - 1)


def size(plan):
    import json

    return len(json.dumps(plan))


def minimise(plan, fails, seconds=60.0, clock=time.time):
    """fails(plan) -> bool; keeps the same violation class."""
    t0 = clock()
    best = plan
    tried = 0
    progress = True
    while progress and clock() - t0 < seconds:
        progress = False
        for cand in candidates(best):
            if clock() - t0 > seconds:
                break
            if size(cand) >= size(best):
                continue
            tried += 1
            if fails(cand):
                best = cand
                progress = True
                break
    return best, tried
