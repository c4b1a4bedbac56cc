"""The simulated disk, clock and entropy.  Files are real files below one scratch directory; every
operation a task makes on them is a scheduling point, may fail, and may be the point where the
process is killed.  Written data sits in the process' own buffer until it is flushed, and is lost
when the process is killed."""
import builtins
import datetime as _dt
import errno
import io
import os
import random
import time as _time

from .kernel import SimCrash

REAL = {}
STATE = None      # the installed SimFS, or None


class SimEscape(Exception):
    """The code under test tried to change something outside the scratch directory."""


class SimRaw(io.RawIOBase):
    """An open file of a task."""

    def __init__(self, fs, path, rel, flags, mode):
        self.fs, self.rel, self._mode = fs, rel, mode
        self.node = fs.kernel.cur.node
        self._r = "r" in mode or "+" in mode
        self._w = any(c in mode for c in "wax+")
        self.fd = REAL["os.open"](path, flags, 0o666)
        self.name = path
        fs.raws.append(self)

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    @property
    def mode(self):
        return self._mode

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def isatty(self):
        return False

    def readinto(self, b):
        fault = self.fs.op("read", self.rel, self.node)
        n = len(b)
        if fault and fault["kind"] == "short" and n > 1:
            n = max(1, int(n * fault.get("frac", 0.5)))
        data = REAL["os.read"](self.fd, n)
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        b = bytes(b)
        if self.node is not None and self.node.dead:
            return len(b)
        fault = self.fs.op("write", self.rel, self.node, size=len(b))
        if fault:
            part = b[:int(len(b) * fault.get("frac", 0.5))]
            if fault["kind"] == "torn":
                REAL["os.write"](self.fd, part)
                self.fs.kill(self.node)
            if fault["kind"] == "short" and len(b) > 1:
                part = part or b[:1]
                return REAL["os.write"](self.fd, part)
            if fault["kind"] in ("enospc", "eio"):
                if part:
                    REAL["os.write"](self.fd, part)
                raise OSError(getattr(errno, fault["kind"].upper()), "simulated", self.name)
        done = 0
        while done < len(b):
            done += REAL["os.write"](self.fd, b[done:])
        return len(b)

    def seek(self, pos, whence=0):
        return os.lseek(self.fd, pos, whence)

    def tell(self):
        return os.lseek(self.fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        os.ftruncate(self.fd, size)
        return size

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            if self.fd is not None:
                REAL["os.close"](self.fd)
                self.fd = None


FAULTS_OF = {      # which fault kinds make sense for which operation
    "open-w": ("eio", "enospc", "emfile", "crash"),
    "open-r": ("eio", "emfile", "crash"),
    "read": ("eio", "short", "crash"),
    "write": ("eio", "enospc", "short", "torn", "crash"),
    "mkdir": ("enospc", "crash"),
    "listdir": ("eio", "crash"),
    "unlink": ("eio", "crash"),
    "rename": ("eio", "crash"),
    "rmdir": ("eio", "crash"),
    "stat": ("crash",),
    "fsync": ("eio", "crash"),
    "clock": ("crash",),
    "callback": ("crash",),
}


class SimFS:
    def __init__(self, kernel, root, seed=0):
        self.kernel, self.seed = kernel, seed
        self.root = os.path.realpath(root)
        self.raws = []
        self.fired = {}           # fault kind -> how often
        self.fired_at = {}        # "fault kind at operation kind" -> how often
        self.escapes = []
        self.watch = None         # callable(kind, rel, node), before every operation

    # -- helpers --------------------------------------------------------------------------
    def rel(self, path):
        """Relative path if it is below the scratch directory, else None."""
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.normpath(os.path.join(os.getcwd(), p))
        if p == self.root:
            return "."
        if p.startswith(self.root + os.sep):
            return p[len(self.root) + 1:]
        return None

    def kill(self, node):
        if node is not None:
            node.dead = True
        raise SimCrash()

    def op(self, kind, rel, node=None, size=None):
        """One operation of the running task: a scheduling point, and possibly a fault."""
        t = self.kernel.cur
        node = node if node is not None else (t.node if t else None)
        if node is not None and node.dead:
            raise SimCrash()
        if t is None or t.raw:
            return None
        self.kernel.yield_point(f"{kind} {rel}" if size is None else f"{kind} {rel} {size}")
        if node is None:
            return None
        if node.dead:
            raise SimCrash()
        if self.watch is not None:
            t.raw += 1
            try:
                self.watch(kind, rel, node)
            finally:
                t.raw -= 1
        node.ops += 1
        node.kinds[kind] = node.kinds.get(kind, 0) + 1
        f = node.plan.get(f"op {node.ops}") or node.plan.get(f"{kind} {node.kinds[kind]}")
        if f is None:
            return None
        k = f["kind"]
        if k not in FAULTS_OF.get(kind, ("crash",)):
            return None
        self.fired[k] = self.fired.get(k, 0) + 1
        self.fired_at[f"{k} at {kind}"] = self.fired_at.get(f"{k} at {kind}", 0) + 1
        node.faults.append(k)
        self.kernel.event(f"fault {k}")
        if k == "crash":
            self.kill(node)
        if k in ("short", "torn"):
            return f
        if kind == "write":
            return f
        code = {"eio": errno.EIO, "enospc": errno.ENOSPC, "emfile": errno.EMFILE}[k]
        raise OSError(code, "simulated", rel)

    def guard(self, path):
        rel = self.rel(path)
        if rel is None:
            self.escapes.append(str(path))
            raise SimEscape(str(path))
        return rel

    def shuffled(self, rel, names):
        names = sorted(names)
        random.Random(f"dir:{self.seed}:{rel}:{len(names)}").shuffle(names)
        return names

    def close_all(self):
        for r in self.raws:
            if r.node is not None:
                r.node.dead = True
            try:
                r.close()
            except BaseException:
                pass
        self.raws = []


# --------------------------------------------------------------------------------------------
def _active():
    return STATE is not None and STATE.kernel.in_task()


def _open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if not _active() or isinstance(file, int) or opener is not None:
        return REAL["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    fs = STATE
    rel = fs.rel(file)
    writing = any(c in mode for c in "wax+")
    if rel is None:
        if writing and os.fspath(file) != os.devnull:
            fs.guard(file)
        return REAL["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    path = os.fspath(file)
    fs.op("open-w" if writing else "open-r", rel)
    flags = os.O_CLOEXEC
    if "+" in mode:
        flags |= os.O_RDWR
    elif "r" in mode:
        flags |= os.O_RDONLY
    else:
        flags |= os.O_WRONLY
    if "w" in mode:
        flags |= os.O_CREAT | os.O_TRUNC
    if "a" in mode:
        flags |= os.O_CREAT | os.O_APPEND
    if "x" in mode:
        flags |= os.O_CREAT | os.O_EXCL
    raw = SimRaw(fs, path, rel, flags, mode.replace("b", "").replace("t", "") + "b")
    if "b" in mode and buffering == 0:
        return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    if "+" in mode:
        buf = io.BufferedRandom(raw, size)
    elif "r" in mode:
        buf = io.BufferedReader(raw, size)
    else:
        buf = io.BufferedWriter(raw, size)
    if "b" in mode:
        return buf
    return io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, line_buffering=buffering == 1)


def _wrap1(name, kind):
    real = REAL["os." + name]

    def f(path, *a, **kw):
        if not _active() or isinstance(path, int):
            return real(path, *a, **kw)
        if kw.get("dir_fd") is not None:
            raise SimEscape(f"{name} with dir_fd")
        rel = STATE.guard(path)
        STATE.op(kind, rel)
        return real(path, *a, **kw)
    f.__name__ = name
    return f


def _wrap2(name, kind):
    real = REAL["os." + name]

    def f(src, dst, *a, **kw):
        if not _active():
            return real(src, dst, *a, **kw)
        r1, r2 = STATE.guard(src), STATE.guard(dst)
        STATE.op(kind, r1 + " -> " + r2)
        return real(src, dst, *a, **kw)
    f.__name__ = name
    return f


def _stat_wrap(name):
    real = REAL["os." + name]

    def f(path, *a, **kw):
        if _active() and not isinstance(path, int):
            rel = STATE.rel(path)
            if rel is not None:
                STATE.op("stat", rel)
        return real(path, *a, **kw)
    f.__name__ = name
    return f


def _listdir(path="."):
    if not _active() or isinstance(path, int):
        return REAL["os.listdir"](path)
    rel = STATE.rel(path)
    if rel is None:
        return REAL["os.listdir"](path)
    STATE.op("listdir", rel)
    return STATE.shuffled(rel, REAL["os.listdir"](path))


class _Scan:
    def __init__(self, entries):
        self.it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def _scandir(path="."):
    if not _active() or isinstance(path, int):
        return REAL["os.scandir"](path)
    rel = STATE.rel(path)
    if rel is None:
        return REAL["os.scandir"](path)
    STATE.op("listdir", rel)
    with REAL["os.scandir"](path) as it:
        entries = {e.name: e for e in it}
    return _Scan([entries[n] for n in STATE.shuffled(rel, entries)])


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    if not _active() or isinstance(path, int):
        return REAL["os.open"](path, flags, mode, dir_fd=dir_fd)
    writing = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    rel = STATE.rel(path)
    if rel is None:
        if writing:
            STATE.guard(path)
    else:
        STATE.op("open-w" if writing else "open-r", rel)
    return REAL["os.open"](path, flags, mode, dir_fd=dir_fd)


def _fsync(fd):
    if not _active():
        return REAL["os.fsync"](fd)
    STATE.op("fsync", "fd")
    if isinstance(fd, int):
        return REAL["os.fsync"](fd)


# -- clock -----------------------------------------------------------------------------------
def _now():
    """Reading the clock is a scheduling point."""
    STATE.op("clock", "now")
    return STATE.kernel.clock


class _DTMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, REAL["datetime"])

    def __subclasscheck__(cls, sub):
        return issubclass(sub, REAL["datetime"])


def _make_datetime():
    real = REAL["datetime"]

    class datetime(real, metaclass=_DTMeta):
        @classmethod
        def now(cls, tz=None):
            if _active():
                return real.fromtimestamp(_now(), tz if tz is not None else _dt.timezone.utc).replace(tzinfo=tz)
            return real.now(tz)

        @classmethod
        def today(cls):
            return cls.now()

        @classmethod
        def utcnow(cls):
            return cls.now()
    return datetime


def _time_time():
    if _active():
        return _now()
    return REAL["time.time"]()


def _tm(name):
    real = REAL["time." + name]

    def f(secs=None):
        if secs is None and _active():
            return REAL["time.gmtime"](_now())
        return real() if secs is None else real(secs)
    return f


def _strftime(fmt, t=None):
    if t is None:
        t = _time.localtime()
    return REAL["time.strftime"](fmt, t)


def _sleep(secs):
    if _active():
        STATE.op("clock", "sleep")
        STATE.kernel.clock += max(0.0, secs)
        return
    REAL["time.sleep"](secs)


# -- entropy ---------------------------------------------------------------------------------
_entropy = [0]


def _default_rng(seed=None):
    if seed is None and STATE is not None:
        _entropy[0] += 1
        return REAL["default_rng"]([7919, STATE.seed % (2 ** 32), _entropy[0]])
    return REAL["default_rng"](seed)


# -- plotting and audio files ----------------------------------------------------------------
def _savefig(self, fname, *a, **kw):
    """Writes what was plotted (the data of all lines) instead of rendering it."""
    if not _active() or not isinstance(fname, (str, os.PathLike)):
        return REAL["savefig"](self, fname, *a, **kw)
    import json
    axes = []
    for ax in self.axes:
        axes.append({"lines": [[list(map(float, ln.get_xdata())), list(map(float, ln.get_ydata()))]
                               for ln in ax.get_lines()], "images": len(ax.get_images()),
                     "labels": [str(ln.get_label()) for ln in ax.get_lines()],
                     "boxes": [[float(p.get_x()), float(p.get_y()), float(p.get_width()), float(p.get_height())]
                               for p in ax.patches if hasattr(p, "get_width") and hasattr(p, "get_x")]})
    with _open(fname, "wb") as f:
        f.write(b"%SIMPLOT\n" + json.dumps(axes).encode())


def _sfwrite(file, data, samplerate, *a, **kw):
    if not _active() or not isinstance(file, (str, os.PathLike)):
        return REAL["sfwrite"](file, data, samplerate, *a, **kw)
    t = STATE.kernel.cur
    t.raw += 1
    try:
        bio = io.BytesIO()
        kw = dict(kw)
        kw.setdefault("format", os.path.splitext(os.fspath(file))[1][1:].upper() or "WAV")
        REAL["sfwrite"](bio, data, samplerate, *a, **kw)
    finally:
        t.raw -= 1
    with _open(file, "wb") as f:
        f.write(bio.getvalue())


def _sfread(file, *a, **kw):
    if not _active() or not isinstance(file, (str, os.PathLike)):
        return REAL["sfread"](file, *a, **kw)
    with _open(file, "rb") as f:
        data = f.read()
    t = STATE.kernel.cur
    t.raw += 1
    try:
        return REAL["sfread"](io.BytesIO(data), *a, **kw)
    finally:
        t.raw -= 1


def install():
    """Once per worker.  Without an active SimFS everything passes through."""
    if REAL:
        return
    import matplotlib.figure
    import numpy as np
    import soundfile
    import shutil
    import tempfile  # noqa: F401  (keeps its own reference to the real functions)
    names = ["mkdir", "unlink", "remove", "rmdir", "rename", "replace", "stat", "lstat", "listdir",
             "scandir", "open", "read", "write", "close", "fsync", "link", "symlink", "truncate", "utime", "chmod"]
    for n in names:
        REAL["os." + n] = getattr(os, n)
    REAL["open"] = builtins.open
    REAL["datetime"] = _dt.datetime
    for n in ("time", "localtime", "gmtime", "strftime", "sleep"):
        REAL["time." + n] = getattr(_time, n)
    REAL["default_rng"] = np.random.default_rng
    REAL["savefig"] = matplotlib.figure.Figure.savefig
    REAL["sfwrite"], REAL["sfread"] = soundfile.write, soundfile.read

    builtins.open = _open
    io.open = _open
    for n, k in (("mkdir", "mkdir"), ("unlink", "unlink"), ("remove", "unlink"), ("rmdir", "rmdir"),
                 ("truncate", "write"), ("utime", "stat"), ("chmod", "stat")):
        setattr(os, n, _wrap1(n, k))
    for n in ("rename", "replace", "link", "symlink"):
        setattr(os, n, _wrap2(n, "rename"))
    os.stat, os.lstat = _stat_wrap("stat"), _stat_wrap("lstat")
    os.listdir, os.scandir, os.open, os.fsync = _listdir, _scandir, _os_open, _fsync
    _dt.datetime = _make_datetime()
    _time.time = _time_time
    _time.localtime, _time.gmtime = _tm("localtime"), _tm("gmtime")
    _time.strftime, _time.sleep = _strftime, _sleep
    np.random.default_rng = _default_rng
    matplotlib.figure.Figure.savefig = _savefig
    soundfile.write, soundfile.read = _sfwrite, _sfread
    # no shortcuts past the simulated disk
    shutil._USE_CP_SENDFILE = False
    if hasattr(shutil, "_USE_CP_COPY_FILE_RANGE"):
        shutil._USE_CP_COPY_FILE_RANGE = False
    shutil._use_fd_functions = False


def start(kernel, root, seed):
    global STATE
    _entropy[0] = 0
    STATE = SimFS(kernel, root, seed)
    return STATE


def stop():
    global STATE
    if STATE is not None:
        STATE.close_all()
    STATE = None
