"""Line-granular seams: injected exceptions at the k-th executed line of the code under test."""
import linecache
import os
import sys

from .core import REPO

PKG = os.path.realpath(os.path.join(REPO, "nidn")) + os.sep
_cache = {}
_with = {}


def in_pkg(fn):
    r = _cache.get(fn)
    if r is None:
        rp = os.path.realpath(fn) if fn.startswith(os.sep) else fn
        r = rp[len(PKG):] if rp.startswith(PKG) else ""
        _cache[fn] = r
    return r


def is_with(frame):
    """`with` lines are visited again before __exit__ runs; an exception there would bypass the
    context manager, which no real exception source in these programs can do."""
    key = (frame.f_code.co_filename, frame.f_lineno)
    r = _with.get(key)
    if r is None:
        r = _with[key] = linecache.getline(*key).lstrip().startswith(("with ", "with("))
    return r


class LineInjector:
    """Counts executed lines of nidn code (optionally only below some sub-packages) and
    raises `exc` at the k-th one."""

    def __init__(self, k=None, exc=None, prefixes=None, gate=None):
        self.k, self.exc, self.prefixes, self.gate = k, exc, prefixes, gate
        self.n = 0
        self.where = None
        self.fired = False

    def __call__(self, frame, event, arg):
        if self.fired:
            return None
        rel = in_pkg(frame.f_code.co_filename)
        if not rel:
            return None
        if self.prefixes and not rel.startswith(self.prefixes):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line" and not self.fired and (self.gate is None or self.gate()) and not is_with(frame):
            self.n += 1
            if self.k is not None and self.n == self.k:
                self.fired = True
                self.where = (in_pkg(frame.f_code.co_filename), frame.f_code.co_name)
                raise self.exc
        return self.local


def settrace_all(tr):
    sys.settrace(tr)
