"""The simulated disk.

The medium is a private scratch directory; every Python-level operation on a
path below it (or on an explicitly tracked file, such as the packaged line list)
passes through this seam, is counted, and can be made to fail, be cut short or
kill the process, as the armed fault list says.  Paths outside are untouched.

A simulated process crash keeps what reached the medium and drops what was still
in user-space buffers: once dead, later writes, renames and removals (from
``finally`` and ``__exit__`` clauses of the unwinding code) have no effect.
"""

import builtins
import errno
import io
import os
import re
import shutil
import tempfile

REAL = {}


def _seams():
    from . import seams

    return seams


class SimDisk:
    def __init__(self, bufsize=512):
        self.root = tempfile.mkdtemp(prefix="rascal-dst-")
        self.root_real = os.path.realpath(self.root)
        self.tracked = {}
        self.bufsize = bufsize
        self.op_log = True
        self.arm([])
        self.old = {}  # dst path -> bytes before the last replace

    # -- plan -------------------------------------------------------------
    def arm(self, faults):
        self.faults = [dict(f) for f in faults]
        self.ops = 0
        self.kinds = []
        self.dead = False
        self.crashed_at = None
        self.failed = 0

    def name(self, path):
        """What logs call a file: no scratch directory, no process ids."""
        p = os.path.abspath(path)
        for root in (self.root, self.root_real):
            if p.startswith(root + os.sep):
                return "/" + re.sub(r"\d{3,}", "#", p[len(root) + 1 :])
        return self.tracked.get(p)

    def mask(self, text):
        for root in (self.root_real, self.root):
            text = text.replace(root, "<disk>")
        return text

    def covers(self, path):
        try:
            path = os.fspath(path)
        except TypeError:
            return False
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        p = os.path.abspath(path)
        return (
            p == self.root
            or p.startswith(self.root + os.sep)
            or p.startswith(self.root_real + os.sep)
            or p in self.tracked
        )

    def path(self, name):
        return os.path.join(self.root, name)

    def track(self, path, alias):
        self.tracked[os.path.abspath(path)] = alias

    def destroy(self):
        assert os.path.basename(self.root).startswith("rascal-dst-")
        shutil.rmtree(self.root, ignore_errors=True)

    def wipe(self):
        for e in list(os.scandir(self.root)):
            if e.is_dir(follow_symlinks=False):
                shutil.rmtree(e.path)
            else:
                REAL["os.remove"](e.path)
        self.old = {}

    # -- the op counter ----------------------------------------------------
    def op(self, kind, path):
        """Count one operation; return the fault dict to apply, or None."""
        S = _seams()
        sim = S.SIM
        if self.dead or sim.disk is not self:  # or closed by the collector, after its run
            return {"kind": "dead"}
        if sim.yield_hook is not None:
            sim.yield_hook("disk:" + kind)
            if self.dead:
                return {"kind": "dead"}
        n = self.ops
        self.ops += 1
        self.kinds.append(kind)
        for f in self.faults:
            at = f["at"]
            last = at + f.get("repeat", 1) - 1
            if f.get("repeat", 1) < 0:
                last = 1 << 60
            if at <= n <= last:
                if not _applies(f["kind"], kind):
                    continue
                sim.fire("disk:%s@%s" % (f["kind"], kind))
                sim.note("disk", n, kind, self.name(path), f["kind"])
                return f
        if self.op_log:
            sim.note("disk", n, kind, self.name(path))
        return None

    def die(self):
        S = _seams()
        self.dead = True
        self.crashed_at = self.ops
        raise S.SimCrash()

    def simple(self, kind, path, action):
        """An op with no partial outcome: replace, remove, fsync, open..."""
        f = self.op(kind, path)
        if f is None or f["kind"] == "short":
            return action()
        k = f["kind"]
        if k == "dead":
            S = _seams()
            if kind in ("open", "stat"):
                raise S.SimCrash()
            return None
        if k == "crash":
            self.die()
        if k == "crash_after":
            action()
            self.die()
        self.failed += 1
        raise _oserror(k, path)

    # -- power loss ---------------------------------------------------------
    def power_loss(self, path, mode, frac):
        """What is left of ``path`` after losing unsynced data."""
        if mode == "full" or not os.path.exists(path):
            return
        if mode == "norename":
            if path in self.old:
                old = self.old[path]
                if old is None:
                    REAL["os.remove"](path)
                else:
                    with REAL["open"](path, "wb") as f:
                        f.write(old)
            return
        with REAL["open"](path, "rb") as f:
            data = f.read()
        cut = min(int(frac * len(data)), max(len(data) - 1, 0))
        tail = b"" if mode == "trunc" else b"\0" * (len(data) - cut)
        with REAL["open"](path, "wb") as f:
            f.write(data[:cut] + tail)


_WRITE_ONLY = {"enospc"}


def _applies(kind, op):
    if kind == "enospc":
        return op in ("write", "open", "close", "replace", "fsync")
    if kind == "short":
        return op in ("read", "write")
    if kind == "enoent":
        return op in ("open", "stat", "replace", "remove")
    if kind == "eacces":
        return op in ("open", "replace", "remove")
    return True


def _oserror(kind, path):
    code = {
        "eio": errno.EIO,
        "enospc": errno.ENOSPC,
        "enoent": errno.ENOENT,
        "eacces": errno.EACCES,
        "emfile": errno.EMFILE,
    }[kind]
    return OSError(code, os.strerror(code) + " (simulated)", str(path))


class SimRaw(io.RawIOBase):
    def __init__(self, disk, path, fio):
        self._disk = disk
        self._path = path
        self._fio = fio
        self.name = path
        self.mode = fio.mode

    def readable(self):
        return self._fio.readable()

    def writable(self):
        return self._fio.writable()

    def seekable(self):
        return True

    def seek(self, pos, whence=0):
        return self._fio.seek(pos, whence)

    def tell(self):
        return self._fio.tell()

    def truncate(self, size=None):
        if self._disk.dead:
            return size
        return self._fio.truncate(size)

    def fileno(self):
        # No descriptor: C code must go through read()/write().
        raise io.UnsupportedOperation("fileno")

    def readinto(self, b):
        f = self._disk.op("read", self._path)
        if f is None:
            return self._fio.readinto(b)
        k = f["kind"]
        if k == "short":
            n = max(1, int(len(b) * f.get("frac", 0.3)))
            got = self._fio.read(n)
            b[: len(got)] = got
            return len(got)
        if k == "dead":
            raise _seams().SimCrash()
        if k in ("crash", "crash_after"):
            self._disk.die()
        self._disk.failed += 1
        raise _oserror(k, self._path)

    def write(self, b):
        f = self._disk.op("write", self._path)
        data = bytes(b)
        if f is None:
            return self._fio.write(data)
        k = f["kind"]
        if k == "dead":
            return len(data)
        part = data[: int(len(data) * f.get("frac", 0.5))]
        if k == "short":
            return self._fio.write(data[: max(1, len(part))])
        if part:
            self._fio.write(part)
        if k in ("crash", "crash_after"):
            self._disk.die()
        self._disk.failed += 1
        raise _oserror(k, self._path)

    def close(self):
        if self.closed:
            return
        try:
            f = self._disk.op("close", self._path)
        finally:
            super().close()
            self._fio.close()
        if f is not None and f["kind"] not in ("short", "dead"):
            if f["kind"] in ("crash", "crash_after"):
                self._disk.die()
            self._disk.failed += 1
            raise _oserror(f["kind"], self._path)


class SimBuf(io.BufferedIOBase):
    """A buffered file that numpy does not mistake for a C-level one."""

    def __init__(self, raw, inner):
        self._raw = raw
        self._in = inner
        self.name = raw.name
        self.mode = raw.mode

    @property
    def raw(self):
        return self._raw

    def readable(self):
        return self._in.readable()

    def writable(self):
        return self._in.writable()

    def seekable(self):
        return True

    def read(self, n=-1):
        return self._in.read(-1 if n is None else n)

    def read1(self, n=-1):
        return self._in.read1(n)

    def peek(self, n=0):
        return self._in.peek(n)

    def readline(self, n=-1):
        return self._in.readline(-1 if n is None else n)

    def readinto(self, b):
        return self._in.readinto(b)

    def readinto1(self, b):
        return self._in.readinto1(b)

    def write(self, b):
        return self._in.write(b)

    def flush(self):
        if not self._in.closed:
            self._in.flush()

    def seek(self, pos, whence=0):
        return self._in.seek(pos, whence)

    def tell(self):
        return self._in.tell()

    def truncate(self, size=None):
        return self._in.truncate(size)

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def isatty(self):
        return False

    @property
    def closed(self):
        return self._in.closed

    def close(self):
        self._in.close()

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def __del__(self):
        try:
            self._in.close()
        except BaseException:
            pass


def _sim_open(
    file,
    mode="r",
    buffering=-1,
    encoding=None,
    errors=None,
    newline=None,
    closefd=True,
    opener=None,
):
    S = _seams()
    disk = S.SIM.disk
    if (
        disk is None
        or not S.SIM.active
        or isinstance(file, int)
        or not disk.covers(file)
    ):
        return REAL["open"](
            file, mode, buffering, encoding, errors, newline, closefd, opener
        )
    path = os.path.abspath(os.fsdecode(os.fspath(file)))
    binary = "b" in mode
    rawmode = "".join(c for c in mode if c not in "bt")
    fio = disk.simple(
        "open", path, lambda: io.FileIO(path, rawmode, True, opener)
    )
    if fio is None:
        raise S.SimCrash()
    raw = SimRaw(disk, path, fio)
    if buffering == 0:
        return raw
    if "+" in rawmode:
        inner = io.BufferedRandom(raw, disk.bufsize)
    elif fio.writable():
        inner = io.BufferedWriter(raw, disk.bufsize)
    else:
        inner = io.BufferedReader(raw, disk.bufsize)
    buf = SimBuf(raw, inner)
    if binary:
        return buf
    text = io.TextIOWrapper(
        buf, encoding or "utf-8", errors, newline, buffering == 1
    )
    text.mode = mode
    return text


def _wrap_os(name, kind, which=0):
    real = getattr(os, name)
    REAL["os." + name] = real

    def call(*args, **kwargs):
        S = _seams()
        disk = S.SIM.disk
        if disk is None or not S.SIM.active or not args:
            return real(*args, **kwargs)
        target = args[which] if len(args) > which else args[0]
        if isinstance(target, int) or not disk.covers(target):
            return real(*args, **kwargs)
        if kind == "replace":
            dst = os.path.abspath(os.fsdecode(os.fspath(args[1])))

            def act():
                old = None
                if os.path.exists(dst):
                    with REAL["open"](dst, "rb") as f:
                        old = f.read()
                disk.old[dst] = old
                return real(*args, **kwargs)

            return disk.simple(kind, dst, act)
        return disk.simple(kind, target, lambda: real(*args, **kwargs))

    call.__name__ = name
    setattr(os, name, call)


_done = False


def install():
    global _done
    if _done:
        return
    _done = True
    REAL["open"] = builtins.open
    builtins.open = _sim_open
    io.open = _sim_open
    _wrap_os("replace", "replace", 1)
    _wrap_os("rename", "replace", 1)
    _wrap_os("remove", "remove")
    _wrap_os("unlink", "remove")


def install_numpy(np):
    """numpy keeps its own reference to io.open for text files."""
    try:
        fo = np.lib._datasource._file_openers
        fo._load()
        fo._file_openers[None] = _sim_open
    except AttributeError:
        pass
