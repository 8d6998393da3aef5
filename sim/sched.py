"""Deterministic thread scheduler: real threads, one runs at a time, switches only at executed
lines of the code under test, as a seeded plan says."""
import dis
import re
import sys
import threading
import types

from .core import HarnessError
from .trace import in_pkg


_PLAIN = (type(None), bool, int, float, complex, str, bytes, tuple, frozenset, types.ModuleType, types.FunctionType, types.BuiltinFunctionType, type)


# process-wide settings of other libraries
_SETTER = re.compile(r"set|seed|manual_seed|chdir|environ|enable|disable|use|umask|rc|filterwarnings|simplefilter")


def _shared(v):
    if isinstance(v, _PLAIN):
        return False
    m = type(v).__module__.split(".")[0]
    return m in ("builtins", "collections", "torch", "numpy", "weakref", "dotmap") or (m == "nidn" and bool(getattr(v, "__dict__", None)))


def _heat(code, env):
    """{line: 2 if it touches a mutable object of the module or the class, 1 if it stores into an object}.
    Only guides where the search switches threads; it decides nothing."""
    heat = {}
    line = code.co_firstlineno
    prev = None
    for i in dis.get_instructions(code):
        line = getattr(i, "starts_line", None) or line
        op, h = i.opname, 0
        if op in ("STORE_GLOBAL", "DELETE_GLOBAL"):
            h = 2
        elif op == "LOAD_GLOBAL" and i.argval in env and _shared(env[i.argval]):
            h = 2
        elif op in ("LOAD_ATTR", "STORE_ATTR") and prev is not None and prev.opname == "LOAD_GLOBAL":
            v = env.get(prev.argval)
            if isinstance(v, (types.FunctionType, type)) or (isinstance(v, types.ModuleType) and (op == "STORE_ATTR" or _SETTER.match(str(i.argval)))):
                h = 2
        elif op == "STORE_ATTR":
            h = 1
        if h > heat.get(line, 0):
            heat[line] = h
        prev = i
    return heat


def sites_of(fn, times=1):
    """(result of the first call, distinct source lines of the library executed by fn, those touching
    objects threads may share)"""
    seen = {}
    heats = {}

    def local(frame, event, arg):
        if event == "line":
            c = frame.f_code
            h = heats.get(c)
            if h is None:
                h = heats[c] = _heat(c, frame.f_globals)
            seen[(in_pkg(c.co_filename), frame.f_lineno)] = h.get(frame.f_lineno, 0)
        return local

    def glob(frame, event, arg):
        return local if in_pkg(frame.f_code.co_filename) else None

    sys.settrace(glob)
    try:
        r = fn()
        for _ in range(times - 1):
            fn()
    finally:
        sys.settrace(None)
    return r, [sorted(k for k, v in seen.items() if v >= h) for h in (0, 1, 2)]


class Scheduler:
    def __init__(self, jobs, switches, W, breaks=None):
        """switches: [thread, lines] in turn.  breaks: {thread: {site: [(occurrence, lines)]}}: when the
        thread reaches that source line for the n-th time another one runs for so many lines."""
        self.jobs = jobs
        self.n = len(jobs)
        self.plan = [tuple(s) for s in switches]
        self.pos = 0
        self.left = None
        self.cur = None
        self.done = [False] * self.n
        self.sems = [threading.Semaphore(0) for _ in range(self.n)]
        self.main = threading.Semaphore(0)
        self.results = [None] * self.n
        self.W = W
        self.lines = 0
        self.preempts = 0
        self.trace = []
        self.breaks = breaks or {}
        self.hits = {}

    # called by the running thread only
    def _pick(self):
        while self.pos < len(self.plan):
            tid, k = self.plan[self.pos]
            self.pos += 1
            tid %= self.n
            if not self.done[tid]:
                self.left = max(1, int(k))
                return tid
        self.left = None
        for t in range(self.n):
            if not self.done[t]:
                return t
        return None

    def _yield(self, me):
        nxt = self._pick()
        if nxt == me:
            return
        self.preempts += 1
        self.cur = nxt
        self.sems[nxt].release()
        self.sems[me].acquire()

    def _tick(self, me, frame):
        self.lines += 1
        mine = self.breaks.get(me)
        if mine:
            at = (in_pkg(frame.f_code.co_filename), frame.f_lineno)
            todo = mine.get(at)
            if todo:
                n = self.hits[(me, at)] = self.hits.get((me, at), 0) + 1
                for occ, hold in todo:
                    others = [t for t in range(me + 1, me + self.n) if not self.done[t % self.n]]
                    if occ == n and others:
                        self.trace.append((me, at[0], frame.f_code.co_name, "break"))
                        self.cur = others[0] % self.n
                        self.left = hold
                        self.preempts += 1
                        self.sems[self.cur].release()
                        self.sems[me].acquire()
                        break
                return
        if self.left is None:
            return
        self.left -= 1
        if self.left <= 0:
            if len(self.trace) < 400:
                self.trace.append((me, in_pkg(frame.f_code.co_filename), frame.f_code.co_name))
            self._yield(me)

    def _body(self, me):
        self.sems[me].acquire()

        def local(frame, event, arg):
            if event == "line":
                self._tick(me, frame)
            return local

        def glob(frame, event, arg):
            return local if in_pkg(frame.f_code.co_filename) else None

        sys.settrace(glob)
        try:
            self.results[me] = ("ok", self.jobs[me]())
        except BaseException as e:
            self.results[me] = ("exc", e)
        finally:
            sys.settrace(None)
        self.done[me] = True
        nxt = self._pick()
        if nxt is None:
            self.main.release()
        else:
            self.cur = nxt
            self.sems[nxt].release()

    def run(self):
        ts = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        first = self._pick()
        self.cur = first
        self.sems[first].release()
        if not self.main.acquire(timeout=150):
            raise HarnessError("scheduler stuck")
        for t in ts:
            t.join()
        self.W.fire("preemption", self.preempts)
        return self.results
