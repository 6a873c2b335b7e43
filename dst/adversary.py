"""The random seam under hostile control.

Directives name the outcome of successive *sample draws* (several peaks without
replacement) and *line draws* (one candidate of a peak).  Every outcome an
adversary produces is one a fair generator could have produced: it never picks
an element of probability zero and never repeats an element in a sample.
"""

import random

import numpy as np

from .seams import SIM


class Adversary:
    """plan: {"seed": int, "x": mode list, "y": mode list, "win": [indices],
    "truth": [[peak, wave], ...]}"""

    def __init__(self, plan):
        self.r = random.Random(plan.get("seed", 0))
        self.x = plan.get("x") or ["fair"]
        self.y = plan.get("y") or ["fair"]
        self.win = set(plan.get("win", []))
        self.truth = {float(p): float(w) for p, w in plan.get("truth", [])}
        self.cyc = plan.get("cycle", True)
        self.nx = 0
        self.ny = 0
        self.winning = False
        self.queue = []
        self.last = None
        self.samples = []  # what was drawn
        self.won = 0

    def choice(self, real, a, size=None, replace=True, p=None):
        arr = np.asarray(a)
        if arr.ndim == 0:
            out = real(a, size, replace, p)
            return out
        if size is None:
            return self._y(real, arr, p)
        return self._x(real, arr, size, replace, p)

    def _mode(self, modes, i):
        return modes[i % len(modes)] if self.cyc or i < len(modes) else "fair"

    def _x(self, real, arr, size, replace, p):
        i = self.nx
        self.nx += 1
        self.winning = i in self.win
        self.last = None
        k = int(size if np.ndim(size) == 0 else size[0])
        vals = list(range(len(arr)))
        if p is not None:
            vals = [v for v in vals if np.asarray(p)[v] > 0]
        mode = self._mode(self.x, i)
        if self.winning:
            good = [v for v in vals if float(arr[v]) in self.truth]
            if len(good) < k:
                self.winning = False
            else:
                step = max(1, len(good) // max(k - 1, 1))
                spread = good[::step][:k]
                rest = [g for g in good if g not in spread]
                pick = (spread + rest)[:k]
                if self.r.random() < 0.5:
                    pick = self.r.sample(good, k)
                out = arr[pick]
                self.samples.append([list(map(float, out)), []])
                return out
        if mode == "fair" or len(vals) < k or replace:
            out = real(arr, size, replace, p)
        else:
            if mode == "low":
                pick = vals[:k]
            elif mode == "high":
                pick = vals[-k:]
            elif mode == "cluster":
                s = self.r.randrange(0, len(vals) - k + 1)
                pick = vals[s : s + k]
            elif mode == "ends":
                h = k // 2
                pick = vals[:h] + vals[len(vals) - (k - h) :]
            else:
                pick = self.r.sample(vals, k)
            if self.r.random() < 0.5:
                pick = pick[::-1]
            out = arr[pick]
        self.samples.append([list(map(float, np.ravel(out))), []])
        return out

    def _y(self, real, arr, p):
        self.ny += 1
        cur = self.samples[-1] if self.samples else None
        j = len(cur[1]) if cur else 0
        out = None
        key = tuple(arr.tolist())
        repeat = self.last is not None and self.last[0] == key
        if self.winning and cur is not None:
            w = self.truth.get(self._peak(cur, arr))
            hits = [v for v in arr if w is not None and abs(v - w) < 1e-9]
            if hits:
                out = hits[0]
            else:
                self.winning = False
        if out is None:
            mode = self._mode(self.y, self.ny - 1)
            if mode == "fair" or repeat:
                # after a collision the generator is fair, as a real one is
                out = real(arr)
            elif mode == "first":
                out = arr[0]
            elif mode == "last":
                out = arr[-1]
            elif mode == "low":
                out = arr[int(np.argmin(arr))]
            elif mode == "high":
                out = arr[int(np.argmax(arr))]
            elif mode in ("wrong", "near"):
                w = self.truth.get(self._peak(cur, arr)) if cur else None
                if w is None:
                    out = real(arr)
                else:
                    bad = [v for v in arr if abs(v - w) > 1e-9]
                    if not bad:
                        out = arr[0]
                    elif mode == "near":
                        out = min(bad, key=lambda v: (abs(v - w), v))
                    else:
                        out = self.r.choice(bad)
            else:
                out = arr[self.r.randrange(len(arr))]
        self.last = (key, float(out))
        if cur is not None:
            cur[1].append(float(out))
        return out

    def _peak(self, cur, arr):
        """The peak whose line is being drawn."""
        done = len(cur[1])
        # collisions redraw for the same peak: count distinct accepted lines
        k = len(set(cur[1])) if len(set(cur[1])) < done else done
        return cur[0][k] if k < len(cur[0]) else None


def gen(rng, truth=None, hostile=True):
    if not hostile or rng.random() < 0.3:
        return None
    xm = ["low", "high", "cluster", "ends", "any", "fair"]
    ym = ["first", "last", "low", "high", "wrong", "near", "any", "fair", "fair"]
    plan = {
        "seed": rng.randrange(1 << 30),
        "x": [rng.choice(xm) for _ in range(rng.randint(1, 4))],
        "y": [rng.choice(ym) for _ in range(rng.randint(1, 4))],
        "win": [],
        "truth": [list(t) for t in (truth or [])],
    }
    if truth and rng.random() < 0.75:
        plan["win"] = sorted({rng.randrange(0, rng.choice([4, 12])) for _ in range(rng.randint(1, 3))})
    return plan


def install(plan):
    if plan is None:
        SIM.adversary = None
        return None
    SIM.adversary = Adversary(plan)
    return SIM.adversary
