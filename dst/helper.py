"""Another process (another hash seed) that executes one side of a run.

  python -m dst.helper C04      requests and answers are JSON lines
"""

import importlib
import json
import os
import subprocess
import sys

_pool = {}


def ask(prop, hashseed, request):
    """Have the process with this hash seed run ``module.remote(request)``."""
    from . import run

    key = (prop, hashseed)
    p = _pool.get(key)
    if p is None or p.poll() is not None:
        p = subprocess.Popen(
            [sys.executable, "-m", "dst.helper", prop],
            cwd=run.ROOT, env=run.child_env(hashseed), text=True,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
        )
        _pool[key] = p
    p.stdin.write(json.dumps(request) + "\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        raise RuntimeError("helper process ended")
    return json.loads(line)


def main():
    from . import run

    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)  # whatever the library prints goes to stderr
    mod = run.load(sys.argv[1])
    for line in sys.stdin:
        answer = mod.remote(json.loads(line))
        out.write(json.dumps(answer) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
