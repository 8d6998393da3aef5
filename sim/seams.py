"""Seams owned by the simulator.

Everything here patches *library* entry points (clock, file system, directory
enumeration, sub-processes, figure rasterisation) before the code under test is
imported, so the code of /repo itself runs unmodified.  All patches are
transparent unless a simulated run is active, and act only on paths inside the
scratch directory of the run (and, for reads/enumeration, on the material data
directory of the repository).
"""
import builtins
import datetime as _dtmod
import errno
import io
import os
import random
import subprocess
import time as _time

# ---------------------------------------------------------------- real handles
REAL = dict(
    open=io.open,
    time=_time.time,
    time_ns=_time.time_ns,
    monotonic=_time.monotonic,
    localtime=_time.localtime,
    gmtime=_time.gmtime,
    strftime=_time.strftime,
    sleep=_time.sleep,
    datetime=_dtmod.datetime,
    scandir=os.scandir,
    listdir=os.listdir,
    mkdir=os.mkdir,
    rename=os.rename,
    replace=os.replace,
    unlink=os.unlink,
    remove=os.remove,
    rmdir=os.rmdir,
    Popen=subprocess.Popen,
)


class SimCrash(BaseException):
    """The simulated process died here; nothing after this point may reach the disk."""


class World:
    """State of one simulated run."""

    def __init__(self):
        self.active = False
        self.root = None  # scratch root of the run
        self.read_roots = ()  # further directories whose reads are simulated
        self.log = []
        self.reset()

    def reset(self, root=None, read_roots=()):
        self.root = root
        self.read_roots = tuple(read_roots)
        self.log = []
        self.now = 1_650_000_000.0
        self.sim_start = self.now
        self.sim_span = 0.0
        self.clock_steps = [0.0]
        self.clock_reads = 0
        self.dead = False
        self.faults = []  # armed faults
        self.fired = {}  # kind -> count
        self.counts = {}  # op kind -> count since arm()
        self.order_seed = None
        self.popen_script = []
        self.popen_calls = []
        self.figures = []
        self.capture_fig = None
        self.sleeps = 0.0

    # -- events
    def ev(self, *a):
        self.log.append(" ".join(str(x) for x in a))

    def fire(self, kind, n=1):
        self.fired[kind] = self.fired.get(kind, 0) + n

    # -- clock
    def read_clock(self):
        d = self.clock_steps[self.clock_reads % len(self.clock_steps)]
        self.clock_reads += 1
        self.now += d
        self.sim_span += abs(d)
        if d < 0:
            self.fire("clock_jump_back")
        elif d == 0:
            self.fire("clock_stall")
        elif d > 60:
            self.fire("clock_jump_forward")
        return self.now

    # -- faults
    def arm(self, faults):
        self.faults = [dict(f) for f in faults]
        self.counts = {}

    def disarm(self):
        self.faults = []

    def owns(self, path):
        if not self.active or self.root is None:
            return False
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p == self.root or p.startswith(self.root + os.sep)

    def owns_read(self, path):
        if not self.active:
            return False
        if self.owns(path):
            return True
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return any(p == r or p.startswith(r + os.sep) for r in self.read_roots)

    def rel(self, path):
        p = os.path.abspath(os.fspath(path))
        for r in (self.root,) + self.read_roots:
            if r and p.startswith(r):
                return p[len(r):]
        return p

    def point(self, op, path):
        """A fault point: the n-th operation of kind `op` may fail or crash."""
        n = self.counts.get(op, 0)
        self.counts[op] = n + 1
        if self.dead:
            raise SimCrash("dead process touched the disk")
        for f in self.faults:
            if f.get("op") == op and f.get("at") == n and not f.get("done"):
                f["done"] = True
                kind = f["kind"]
                self.fire(op + "_" + kind)
                self.ev("fault", op, kind, self.rel(path))
                if kind == "crash":
                    self.dead = True
                    raise SimCrash(op)
                if kind == "interrupt":
                    raise KeyboardInterrupt("simulated interrupt in " + op)
                raise OSError(getattr(errno, kind), os.strerror(getattr(errno, kind)), str(path))

    def byte_fault(self, op, nth_file):
        for f in self.faults:
            if f.get("op") != op or f.get("done"):
                continue
            k = f.get("file", 0)
            if k == nth_file or (f.get("sticky") and nth_file >= k):
                return f
        return None


W = World()


# ---------------------------------------------------------------- clock
class _Meta(type):
    def __instancecheck__(cls, inst):
        return isinstance(inst, REAL["datetime"])

    def __subclasscheck__(cls, sub):
        return issubclass(sub, REAL["datetime"])


class SimDateTime(REAL["datetime"], metaclass=_Meta):
    @classmethod
    def now(cls, tz=None):
        if not W.active:
            return REAL["datetime"].now(tz)
        t = W.read_clock()
        if tz is not None:
            return REAL["datetime"].fromtimestamp(t, tz)
        # the simulated machine lives in UTC
        return REAL["datetime"].fromtimestamp(t, _dtmod.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def utcnow(cls):
        return cls.now()


def _sim_time():
    return W.read_clock() if W.active else REAL["time"]()


def _sim_time_ns():
    return int(W.read_clock() * 1e9) if W.active else REAL["time_ns"]()


def _sim_localtime(secs=None):
    if not W.active:
        return REAL["localtime"](secs)
    return REAL["gmtime"](W.read_clock() if secs is None else secs)


def _sim_gmtime(secs=None):
    if not W.active:
        return REAL["gmtime"](secs)
    return REAL["gmtime"](W.read_clock() if secs is None else secs)


def _sim_strftime(fmt, t=None):
    if not W.active or t is not None:
        return REAL["strftime"](fmt, t) if t is not None else REAL["strftime"](fmt)
    return REAL["strftime"](fmt, REAL["gmtime"](W.read_clock()))


def _sim_sleep(s):
    if not W.active:
        return REAL["sleep"](s)
    W.now += s
    W.sim_span += s


# ---------------------------------------------------------------- files
class SimRaw(io.FileIO):
    """FileIO with injected short/torn writes, errors and crashes."""

    def __init__(self, file, mode, nth):
        super().__init__(file, mode)
        self._nth = nth
        self._written = 0
        self._readn = 0
        self._path = file

    def write(self, b):
        mv = memoryview(b).cast("B") if not isinstance(b, (bytes, bytearray)) else memoryview(b)
        if W.dead:
            return len(mv)  # lost: the process is gone
        f = W.byte_fault("write", self._nth)
        if f is not None:
            if f["kind"] == "short":
                n = max(1, min(len(mv), int(f.get("chunk", 7))))
                W.fire("write_short")
                k = super().write(mv[:n])
                self._written += k
                return k
            limit = int(f.get("byte", 0))
            if self._written + len(mv) > limit:
                keep = max(0, limit - self._written)
                if keep:
                    self._written += super().write(mv[:keep])
                f["done"] = True
                W.fire("write_" + f["kind"])
                W.ev("fault write", f["kind"], "at", limit, W.rel(self._path))
                if f["kind"] == "crash":
                    W.dead = True
                    raise SimCrash("write")
                if f["kind"] == "interrupt":
                    raise KeyboardInterrupt("simulated interrupt in write")
                # the device stays full / broken for this file
                f["done"] = False
                f["byte"] = -1
                raise OSError(getattr(errno, f["kind"]), os.strerror(getattr(errno, f["kind"])), str(self._path))
        k = super().write(mv)
        self._written += k
        return k

    def truncate(self, size=None):
        if W.dead:
            return 0
        return super().truncate(size)

    def readinto(self, b):
        f = W.byte_fault("read", self._nth)
        if f is not None:
            if f["kind"] == "short":
                n = max(1, min(len(b), int(f.get("chunk", 13))))
                tmp = super().read(n)
                W.fire("read_short")
                b[: len(tmp)] = tmp
                self._readn += len(tmp)
                return len(tmp)
            limit = int(f.get("byte", 0))
            if self._readn + len(b) > limit:
                room = limit - self._readn
                if room <= 0:
                    W.fire("read_" + f["kind"])
                    W.ev("fault read", f["kind"], "at", limit, W.rel(self._path))
                    raise OSError(getattr(errno, f["kind"]), os.strerror(getattr(errno, f["kind"])), str(self._path))
                tmp = super().read(room)
                b[: len(tmp)] = tmp
                self._readn += len(tmp)
                return len(tmp)
        k = super().readinto(b)
        self._readn += k or 0
        return k

    def readall(self):
        out = bytearray()
        buf = bytearray(8192)
        while True:
            k = self.readinto(buf)
            if not k:
                return bytes(out)
            out += buf[:k]


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if (
        not W.active
        or isinstance(file, int)
        or opener is not None
    ):
        return REAL["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    writing = any(c in mode for c in "wax+")
    if writing and not W.owns(file):
        return REAL["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not writing and not W.owns_read(file):
        return REAL["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    op = "wopen" if writing else "ropen"
    nth = W.counts.get(op, 0)
    W.point(op, file)
    base = mode.replace("b", "").replace("t", "")
    raw = SimRaw(os.fspath(file), base if base else "r", nth)
    W.ev(op, base, W.rel(file))
    if buffering == 0:
        return raw
    if "+" in mode:
        buf = io.BufferedRandom(raw)
    elif writing:
        buf = io.BufferedWriter(raw)
    else:
        buf = io.BufferedReader(raw)
    if "b" in mode:
        return buf
    txt = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, buffering == 1)
    txt.mode = mode
    return txt


class _ScanList:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self._it

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def _permute(names, path, key):
    names = sorted(names, key=key)
    if W.order_seed is not None:
        r = random.Random("order:%s:%s" % (W.order_seed, W.rel(path)))
        r.shuffle(names)
        W.fire("dir_order_permuted")
    return names


def sim_scandir(path="."):
    if not W.owns_read(path):
        return REAL["scandir"](path)
    W.point("scandir", path)
    with REAL["scandir"](path) as it:
        entries = list(it)
    return _ScanList(_permute(entries, path, lambda e: e.name))


def sim_listdir(path="."):
    if isinstance(path, int) or not W.owns_read(path if path is not None else "."):
        return REAL["listdir"](path)
    W.point("scandir", path)
    return _permute(REAL["listdir"](path), path, lambda e: e)


def _guard(name, op, two=False):
    real = REAL[name]

    def f(path, *a, **k):
        if W.owns(path):
            W.point(op, path)
            W.ev(op, W.rel(path))
        return real(path, *a, **k)

    f.__name__ = name
    return f


# ---------------------------------------------------------------- sub-processes
class FakePopen:
    """Stub of an external program (ffmpeg).  Scripted by W.popen_script."""

    def __init__(self, args, *a, **kw):
        self.args = args
        self.returncode = None
        self.pid = 4242
        self.stdin = self.stdout = self.stderr = None
        spec = W.popen_script.pop(0) if W.popen_script else {"kind": "ok"}
        self._spec = spec
        cwd = kw.get("cwd") or os.getcwd()
        argv = args if isinstance(args, (list, tuple)) else str(args).split()
        argv = [os.fspath(x) for x in argv]
        W.popen_calls.append({"argv": list(argv), "cwd": cwd})
        W.fire("subprocess_" + spec["kind"])
        W.ev("popen", spec["kind"], os.path.basename(argv[0]))
        if spec["kind"] == "enoent":
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", argv[0])
        if spec["kind"] == "eagain":
            raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable", argv[0])
        if spec["kind"] == "interrupt":
            raise KeyboardInterrupt("simulated interrupt while ffmpeg runs")
        if spec["kind"] == "crash":
            W.dead = True
            raise SimCrash("popen")
        out = argv[-1]
        outp = out if os.path.isabs(out) else os.path.join(cwd, out)
        # the encoder reads the frames it was pointed at
        src = argv[argv.index("-i") + 1] if "-i" in argv[:-1] else "x.png"
        srcdir = os.path.join(cwd, os.path.dirname(src))
        frames = sorted(n for n in REAL["listdir"](srcdir) if n.endswith(".png"))
        ok = spec["kind"] == "ok"
        if W.owns(outp):
            with REAL["open"](outp, "wb") as fh:
                if ok:
                    fh.write(("VIDEO:" + ",".join(frames)).encode())
                else:
                    fh.write(b"PART")
        self._rc = 0 if ok else int(spec.get("rc", 1))

    def wait(self, timeout=None):
        self.returncode = self._rc
        return self._rc

    def poll(self):
        return self.wait()

    def communicate(self, input=None, timeout=None):
        self.wait()
        return (b"", b"")

    def kill(self):
        pass

    terminate = kill

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()
        return False


class _PopenSwitch:
    def __new__(cls, *a, **k):
        if W.active:
            return FakePopen(*a, **k)
        return REAL["Popen"](*a, **k)

    def __class_getitem__(cls, item):
        return cls


# ---------------------------------------------------------------- figures
def _install_figure_seam():
    import matplotlib

    matplotlib.use("Agg")
    from matplotlib.figure import Figure

    REAL["savefig"] = Figure.savefig

    def savefig(self, fname, *a, **k):
        if not W.active:
            return REAL["savefig"](self, fname, *a, **k)
        cap = W.capture_fig(self) if W.capture_fig else None
        if hasattr(fname, "write"):
            fname.write(b"\x89PNG-SIM")
            return
        path = os.fspath(fname)
        if "." not in os.path.basename(path):
            path += ".png"
        W.ev("savefig", W.rel(path))
        W.figures.append((path, cap))
        body = b"\x89PNG-SIM:" + repr(cap).encode()[:65536] + b":END"
        with sim_open(path, "wb") as fh:
            fh.write(body)

    Figure.savefig = savefig


def install():
    """Install all seams (once, before the code under test is imported)."""
    builtins.open = sim_open
    io.open = sim_open
    _dtmod.datetime = SimDateTime
    _time.time = _sim_time
    _time.time_ns = _sim_time_ns
    _time.localtime = _sim_localtime
    _time.gmtime = _sim_gmtime
    _time.strftime = _sim_strftime
    _time.sleep = _sim_sleep
    os.scandir = sim_scandir
    os.listdir = sim_listdir
    os.mkdir = _guard("mkdir", "mkdir")
    os.rename = _guard("rename", "rename")
    os.replace = _guard("replace", "rename")
    os.unlink = _guard("unlink", "unlink")
    os.remove = _guard("remove", "unlink")
    os.rmdir = _guard("rmdir", "unlink")
    subprocess.Popen = _PopenSwitch
    _install_figure_seam()
