"""Deterministic simulation runner: seed -> plan -> run -> verdict, minimise, replay."""
import hashlib
import json
import os
import random
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

REAL_TIME = time.monotonic
REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """An oracle found the property broken."""

    def __init__(self, cls, msg):
        super().__init__(f"{cls}: {msg}")
        self.cls = cls
        self.msg = msg


class HarnessError(Exception):
    pass


class BudgetExceeded(BaseException):
    """A simulated run used more steps than any terminating execution can."""


def rng_for(*parts):
    return random.Random(":".join(str(p) for p in parts))


def sha(s):
    if isinstance(s, str):
        s = s.encode()
    return hashlib.sha256(s).hexdigest()[:16]


# ------------------------------------------------------------------ environment
_scratch = None


def scratch_base():
    """One scratch directory for the whole check, removed at the end."""
    global _scratch
    if _scratch is None:
        _scratch = os.path.realpath(tempfile.mkdtemp(prefix="nidn_sim_"))
    return _scratch


def cleanup():
    if _scratch and os.path.isdir(_scratch):
        shutil.rmtree(_scratch, ignore_errors=True)


def import_libs():
    """Import third-party libraries with the real world, then install the seams."""
    import logging
    import warnings

    warnings.simplefilter("ignore")
    os.environ.setdefault("MPLCONFIGDIR", os.path.join(scratch_base(), "mpl"))
    import torch
    import numpy
    import pandas
    import matplotlib

    matplotlib.use("Agg")
    logging.getLogger("matplotlib").setLevel(logging.ERROR)
    import matplotlib.pyplot
    from mpl_toolkits.mplot3d import Axes3D  # noqa: F401
    import dotmap
    import loguru
    import toml
    import tqdm
    import scipy  # noqa: F401  (if the code imports it lazily)

    torch.set_num_threads(1)
    # warm lazily imported parts of torch without touching the autograd engine
    p = torch.nn.Parameter(torch.zeros(2))
    p.grad = torch.zeros(2)
    o = torch.optim.Adam([p], lr=0.1)
    o.step()
    torch.optim.lr_scheduler.ReduceLROnPlateau(o)
    from . import seams

    seams.install()


def import_nidn():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    # never trust byte code caches: compile the working tree
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(scratch_base(), "nopyc")
    import importlib

    nidn = importlib.import_module("nidn")
    where = os.path.realpath(os.path.dirname(nidn.__file__))
    if where != os.path.realpath(os.path.join(REPO, "nidn")):
        raise HarnessError("imported nidn from %s, not from %s" % (where, REPO))
    return nidn


def purge_nidn():
    for m in [m for m in sys.modules if m == "nidn" or m.startswith("nidn.")]:
        del sys.modules[m]


def restart():
    """Simulated process restart: all in-memory state of the library is gone."""
    import torch
    import numpy as np
    from .seams import W
    from loguru import logger
    import matplotlib.pyplot as plt

    W.dead = False
    W.disarm()
    plt.close("all")
    purge_nidn()
    logger.remove()
    torch.set_default_dtype(torch.float32)
    torch.set_grad_enabled(True)
    torch.manual_seed(987654321)
    np.random.seed(123)
    was = W.active
    W.active = False
    try:
        n = import_nidn()
    finally:
        W.active = was
    quiet(n)
    W.ev("restart")
    return n


def quiet(nidn):
    try:
        nidn.set_log_level("CRITICAL")
    except Exception:
        pass


def numeric_abort(e):
    """torch refuses to differentiate through an (almost) degenerate eigenproblem: a numerical
    limit of the solver on that input, not a matter of these properties."""
    return isinstance(e, RuntimeError) and "linalg" in str(e)


# ------------------------------------------------------------------ one run in a forked child
def _setup_child(run_dir):
    from .seams import W

    os.makedirs(os.path.join(run_dir, "work"), exist_ok=True)
    os.chdir(os.path.join(run_dir, "work"))
    W.reset(root=os.path.realpath(run_dir))


def execute(prop, plan, run_dir):
    """Run one plan in this process; returns the result record."""
    from .seams import W, SimCrash

    _setup_child(run_dir)
    res = {"status": "ok"}
    stats = {}
    try:
        W.active = True
        stats = prop.run(plan, W) or {}
    except Violation as v:
        res = {"status": "violation", "cls": v.cls, "msg": v.msg}
    except BudgetExceeded as v:
        res = {"status": "violation", "cls": "no-progress", "msg": str(v)}
    except SimCrash as e:
        res = {"status": "harness", "msg": "SimCrash escaped: %r" % e, "tb": traceback.format_exc()}
    except BaseException as e:
        if numeric_abort(e):
            res = {"status": "ok"}
            stats = {"nontrivial": False, "probes": {"solver_linalg_abort": 1}}
            raise_it = False
        else:
            raise_it = True
        tb = traceback.format_exc()
        # An exception nobody injected that comes out of the code under test, in an
        # operation that must succeed, is a violation; anything else is ours.
        in_repo = any(
            fr.filename.startswith(os.path.join(REPO, "nidn"))
            for fr in traceback.extract_tb(e.__traceback__)
        )
        if not raise_it:
            pass
        elif in_repo:
            res = {
                "status": "violation",
                "cls": "unexpected-exception",
                "msg": "%s: %s" % (type(e).__name__, str(e)[:300]),
                "tb": tb,
            }
        else:
            res = {"status": "harness", "msg": "%s: %s" % (type(e).__name__, e), "tb": tb}
    finally:
        W.active = False
    res["fired"] = dict(W.fired)
    res["sim_time"] = W.sim_span
    res["stats"] = stats
    res["digest"] = sha("\n".join(W.log) + "|" + json.dumps([res["status"], res.get("cls")]))
    res["log_len"] = len(W.log)
    if os.environ.get("VERIF_DEBUG"):
        res["log"] = list(W.log)
    return res


def coverage_start():
    """With VERIF_COV=folder (tools/coverage.sh): note the library lines executed by this run."""
    d = os.environ.get("VERIF_COV")
    if not d:
        return None
    m, seen, root = sys.monitoring, set(), os.path.join(REPO, "nidn") + os.sep

    def line(code, n):
        if code.co_filename.startswith(root):
            seen.add((code.co_filename[len(root):], n))
        return m.DISABLE

    m.use_tool_id(3, "verif")
    m.register_callback(3, m.events.LINE, line)
    m.set_events(3, m.events.LINE)

    def dump():
        m.set_events(3, 0)
        f = os.open(os.path.join(d, "%d_%d" % (os.getpid(), int(REAL_TIME() * 1e6))), os.O_CREAT | os.O_WRONLY)
        os.write(f, "".join("%s:%d\n" % x for x in sorted(seen)).encode())
        os.close(f)

    return dump


class Pool:
    """Fork one child per run from this (warm) process; at most `n` at a time."""

    def __init__(self, prop, n, limit):
        self.prop, self.n, self.limit = prop, n, limit
        self.live = {}
        self.count = 0

    def spawn(self, key, plan):
        self.count += 1
        d = os.path.join(scratch_base(), "r%d_%d" % (os.getpid(), self.count))
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.setpgid(0, 0)
                os.close(r)
                dn = os.open(os.devnull, os.O_RDWR)
                os.dup2(dn, 0)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
                cov = coverage_start()
                try:
                    res = execute(self.prop, plan, d)
                except BaseException as e:  # pragma: no cover
                    res = {"status": "harness", "msg": repr(e), "tb": traceback.format_exc()}
                if cov:
                    cov()
                data = json.dumps(res, default=str).encode()
                off = 0
                while off < len(data):
                    off += os.write(w, data[off : off + 65536])
            finally:
                os._exit(code)
        os.close(w)
        self.live[r] = dict(key=key, plan=plan, pid=pid, buf=bytearray(), t0=REAL_TIME(), dir=d)

    def _finish(self, fd, timed_out=False):
        rec = self.live.pop(fd)
        os.close(fd)
        if timed_out:
            try:
                os.killpg(rec["pid"], signal.SIGKILL)
            except OSError:
                try:
                    os.kill(rec["pid"], signal.SIGKILL)
                except OSError:
                    pass
        _, st = os.waitpid(rec["pid"], 0)
        shutil.rmtree(rec["dir"], ignore_errors=True)
        if timed_out:
            res = {"status": "timeout", "msg": "run exceeded %.0f s of wall time" % self.limit}
        else:
            try:
                res = json.loads(bytes(rec["buf"]).decode())
            except ValueError:
                res = {"status": "harness", "msg": "child died, wait status %d" % st}
        return rec["key"], rec["plan"], res

    def reap(self):
        """Wait for at least one child; return finished ones."""
        out = []
        while not out and self.live:
            ready, _, _ = select.select(list(self.live), [], [], 0.5)
            for fd in ready:
                chunk = os.read(fd, 1 << 20)
                if chunk:
                    self.live[fd]["buf"] += chunk
                else:
                    out.append(self._finish(fd))
            now = REAL_TIME()
            for fd in [f for f, rec in self.live.items() if now - rec["t0"] > self.limit]:
                out.append(self._finish(fd, True))
        return out

    def map(self, items, stop=None):
        """items: iterable of (key, plan). Yields (key, plan, res) as they finish."""
        it = iter(items)
        done = False
        while True:
            while not done and len(self.live) < self.n and not (stop and stop()):
                try:
                    k, p = next(it)
                except StopIteration:
                    done = True
                    break
                self.spawn(k, p)
            if not self.live:
                break
            yield from self.reap()
            if stop and stop():
                done = True

    def kill(self):
        for fd in list(self.live):
            self._finish(fd, True)


def isolated(fn, *a):
    """Run fn in a forked grandchild of this simulated run; return its (JSON) result.

    Used for baselines: same code, pristine process state."""
    import pickle

    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ("ok", fn(*a))
            except Violation as v:
                out = ("violation", (v.cls, v.msg))
            except BaseException as e:
                in_repo = any(
                    fr.filename.startswith(os.path.join(REPO, "nidn"))
                    for fr in traceback.extract_tb(e.__traceback__)
                )
                out = ("exc", (type(e).__name__, str(e)[:300], traceback.format_exc(), in_repo))
            data = pickle.dumps(out)
            off = 0
            while off < len(data):
                off += os.write(w, data[off : off + 65536])
        finally:
            os._exit(0)
    os.close(w)
    buf = bytearray()
    while True:
        c = os.read(r, 1 << 20)
        if not c:
            break
        buf += c
    os.close(r)
    os.waitpid(pid, 0)
    if not buf:
        raise HarnessError("isolated child died")
    st, val = pickle.loads(bytes(buf))
    if st == "violation":
        raise Violation(*val)
    if st == "exc":
        if val[0] == "RuntimeError" and "linalg" in val[1]:
            raise RuntimeError(val[1])
        if val[3]:
            raise Violation("unexpected-exception", "%s: %s" % (val[0], val[1]))
        raise HarnessError("isolated: %s\n%s" % (val[1], val[2]))
    return val


class Pristine:
    """A server forked before the run starts any thread or operation: every
    request is answered by a fresh fork of it (see isolated), so baselines never
    inherit locks or allocator state of threads that do not exist in a fork."""

    def __init__(self):
        import pickle

        self._p = pickle
        (rq_r, rq_w), (an_r, an_w) = os.pipe(), os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(rq_w)
                os.close(an_r)
                rq = os.fdopen(rq_r, "rb")
                an = os.fdopen(an_w, "wb")
                while True:
                    try:
                        fn, a = pickle.load(rq)
                    except EOFError:
                        break
                    try:
                        out = ("ok", isolated(fn, *a))
                    except Violation as v:
                        out = ("violation", (v.cls, v.msg))
                    except RuntimeError as e:
                        out = ("runtime", str(e))
                    except BaseException as e:
                        out = ("harness", str(e))
                    pickle.dump(out, an)
                    an.flush()
            finally:
                os._exit(0)
        os.close(rq_r)
        os.close(an_w)
        self.rq = os.fdopen(rq_w, "wb")
        self.an = os.fdopen(an_r, "rb")

    def __call__(self, fn, *a):
        self._p.dump((fn, a), self.rq)
        self.rq.flush()
        try:
            st, val = self._p.load(self.an)
        except EOFError:
            raise HarnessError("baseline server died")
        if st == "violation":
            raise Violation(*val)
        if st == "runtime":
            raise RuntimeError(val)
        if st == "harness":
            raise HarnessError(val)
        return val


# ------------------------------------------------------------------ minimisation
def generic_shrinks(plan):
    """Drop elements of every list called ops/faults/..., shrink integers."""

    def paths(node, pre=()):
        if isinstance(node, dict):
            for k, v in node.items():
                yield from paths(v, pre + (k,))
        elif isinstance(node, list):
            yield pre, node
            for i, v in enumerate(node):
                yield from paths(v, pre + (i,))

    def put(root, path, val):
        root = json.loads(json.dumps(root))
        node = root
        for k in path[:-1]:
            node = node[k]
        node[path[-1]] = val
        return root

    shrinkable = ("ops", "faults", "script", "steps", "threads", "switches", "segments", "cfgs", "history", "popen", "clock")
    lists = [(p, l) for p, l in paths(plan) if p and p[-1] in shrinkable]
    for p, l in lists:
        n = len(l)
        size = n
        while size >= 1:
            for i in range(0, n, size):
                cand = l[:i] + l[i + size :]
                if len(cand) < n:
                    yield put(plan, p, cand)
            size //= 2
    ints = ("iterations", "n", "N_layers", "N_freq", "Nx", "Ny", "iters")

    def intpaths(node, pre=()):
        if isinstance(node, dict):
            for k, v in node.items():
                if k in ints and isinstance(v, int) and not isinstance(v, bool) and v > 1:
                    yield pre + (k,), v
                else:
                    yield from intpaths(v, pre + (k,))
        elif isinstance(node, list):
            for i, v in enumerate(node):
                yield from intpaths(v, pre + (i,))

    for p, v in intpaths(plan):
        yield put(plan, p, 1)
        if v > 3:
            yield put(plan, p, v // 2)
        yield put(plan, p, v - 1)


def minimise(prop, plan, cls, workers, limit, budget_s):
    t0 = REAL_TIME()
    cur = plan
    tried = 0
    shr = getattr(prop, "shrinks", generic_shrinks)
    improved = True
    while improved and REAL_TIME() - t0 < budget_s:
        improved = False
        seen = set()
        cands = []
        for c in shr(cur):
            if hasattr(prop, "valid") and not prop.valid(c):
                continue
            s = json.dumps(c, sort_keys=True)
            if s in seen or s == json.dumps(cur, sort_keys=True):
                continue
            seen.add(s)
            cands.append(c)
        pool = Pool(prop, workers, limit)
        best = None
        found = []

        def stop():
            return bool(found) or REAL_TIME() - t0 > budget_s

        for key, cplan, res in pool.map(enumerate(cands), stop):
            tried += 1
            if res["status"] == "violation" and res["cls"] == cls:
                found.append((key, cplan))
        if found:
            found.sort(key=lambda x: x[0])
            cur = found[0][1]
            improved = True
    return cur, tried
