"""C12: FDTD output on disk: data, frames and videos are complete, separate and never silently lost."""
import json
import os
import random
import re
from datetime import datetime, timezone

import numpy as np
import torch

from ..core import Violation, restart
from ..sched import Scheduler
from ..seams import SimCrash, REAL as RAW
from ..util import canon, canon_hash, tree
from . import c10

QUICK = dict(runs=700, budget=55)
THOROUGH = dict(runs=60000, budget=1500)
RUN_LIMIT = 120
RULE = (
    "a run is a seeded history of simulations stepping, opening an output folder, storing frames, detector readings and videos, under "
    "clock stalls and jumps, disk faults (open/mkdir/unlink errors, ENOSPC/EIO/short write/interrupt/crash at a byte), a missing, failing, "
    "interrupted encoder and process restarts; non-trivial if at least two outputs were attempted and a fault or clock irregularity "
    "occurred; distinct by event-log digest"
)
REAL = ["Grid.save_simulation/save_data/generate_video/visualize", "FDTD stepping", "numpy savez and zipfile", "matplotlib figure construction"]
STUB = ["ffmpeg (scripted: ok, exit code, missing, interrupted, crash)", "figure rasterisation", "clock, disk faults, process death"]
SCHED_MEASURE = "distinct sequences of operations, faults and clock steps"

NAMES = [None, None, "a", "a", "b c", "x[1]", "é*"]


def gen(rng, tier, idx):
    ng = rng.choice([1, 2, 2, 3])
    grids = []
    for _ in range(ng):
        g = c10.gen_grid(rng)
        g["grad"] = False
        if g["shape"][1] == 1:
            g["shape"][1] = 3
        g["detectors"] = [dict(d, named=rng.random() < 0.97, kind=rng.choice(["line", "line", "block", "current"])) for d in g["detectors"]]
        if rng.random() < 0.05:
            g["detectors"] = [json.loads(json.dumps(rng.choice(g["detectors"]))) for _ in range(12)]
        grids.append(g)
    ops = [{"do": "open", "g": i, "name": rng.choice(NAMES)} for i in range(ng) if rng.random() < 0.8]
    for _ in range(rng.randrange(3, 11 if tier == "quick" else 22)):
        k = rng.choice(["run"] * 3 + ["open"] * 3 + ["data"] * 4 + ["frame"] * 8 + ["video"] * 5 + ["restart", "par", "foreign", "reset", "again", "again"])
        o = {"do": k, "g": rng.randrange(ng), "r": rng.randrange(1 << 30), "fault": None}
        if k == "run":
            o["n"] = rng.choice([1, 2, 4])
            if rng.random() < 0.04:
                o["n"] = rng.choice([60, 150, 400])
        if k == "open":
            o["name"] = rng.choice(NAMES)
            if rng.random() < 0.25:
                o["fault"] = {"op": "mkdir", "at": rng.randrange(2), "kind": rng.choice(["ENOSPC", "EACCES", "crash"])}
        if k == "frame":
            o["index"] = rng.choice([0, 1, 2, 3, 12, 10000])
            if rng.random() < 0.2:
                o["fault"] = rng.choice(
                    [
                        {"op": "wopen", "at": 0, "kind": rng.choice(["ENOSPC", "EACCES", "crash"])},
                        {"op": "write", "file": 0, "byte": rng.randrange(300), "kind": rng.choice(["ENOSPC", "EIO", "interrupt"])},
                    ]
                )
        if k == "data" and rng.random() < 0.45:
            o["fault"] = rng.choice(
                [
                    {"op": "wopen", "at": 0, "kind": rng.choice(["ENOSPC", "EACCES", "EMFILE", "crash"])},
                    {"op": "write", "file": 0, "byte": rng.randrange(rng.choice([100, 700, 3000, 9000])), "kind": rng.choice(["ENOSPC", "EIO", "interrupt", "crash"])},
                    {"op": "write", "file": 0, "kind": "short", "chunk": rng.choice([7, 300, 4096])},
                ]
            )
        if k == "video":
            o["delete"] = rng.random() < 0.6
            o["popen"] = [{"kind": rng.choice(["ok"] * 4 + ["fail", "fail", "enoent", "interrupt", "crash", "eagain"]), "rc": rng.choice([1, 2, -9, 255])}]
            if o["delete"] and rng.random() < 0.25:
                o["fault"] = {"op": "unlink", "at": rng.choice([0, 0, 1, 2]), "kind": rng.choice(["EACCES", "EIO", "crash", "interrupt"])}
        if k == "par":
            o["switches"] = [[rng.randrange(2), rng.randrange(1, 30)] for _ in range(rng.choice([2, 6, 15]))]
            o["name"] = rng.choice(NAMES)
            o["popen"] = [{"kind": rng.choice(["ok", "ok", "fail"]), "rc": 1}]
        if k == "again":
            # the same number of steps from the start with other content, and stored again
            steps = rng.choice([1, 2, 4])
            for kk in ["run", "data", "reset", "tweak", "run", "data"]:
                ops.append({"do": kk, "g": o["g"], "r": o["r"], "n": steps, "fault": None})
            continue
        if k == "video" and rng.random() < 0.5:
            for i in rng.sample([0, 1, 2, 3, 12, 9999, 10000], rng.choice([1, 2, 3])):
                ops.append({"do": "frame", "g": o["g"], "r": o["r"], "index": i, "fault": None})
        ops.append(o)
        if k == "data" and o["fault"] and rng.random() < 0.6:
            ops.append({"do": "data", "g": o["g"], "r": o["r"], "fault": None})
    if rng.random() < 0.012:
        # a long simulation
        g = grids[0]
        g["shape"], g["pml"], g["pml_y"], g["pml_z"], g["border"] = [11, 3, 1], [0, 3], [0, 0], [0, 0], 0
        g["per_x"] = g["per_z"] = False
        g["sources"] = [dict(s, kind="line", x=min(s["x"], 5)) for s in g["sources"][:1]]
        g["objects"] = []
        g["detectors"] = [{"kind": "line", "x": 5, "named": True, "along": "y", "len": 2}]
        ops = [{"do": "open", "g": 0, "name": "long", "r": 0, "fault": None}, {"do": "run", "g": 0, "r": 0, "n": rng.choice([1005, 1300, 2100, 4200, 8300]), "fault": None}, {"do": "data", "g": 0, "r": 0, "fault": None}] + ops[:3]
    if rng.random() < 0.05:
        # many simulations of one name within a second
        nm = rng.choice(NAMES)
        ops = [{"do": "open", "g": i % ng, "name": nm, "r": 0, "fault": None} for i in range(rng.choice([12, 15, 40]))] + ops[:3]
        return {"grids": grids, "ops": ops, "clock": [0.0], "start": 1_650_000_000.0}
    return {
        "grids": grids,
        "ops": ops,
        "clock": [rng.choice([0.0, 0.0, 0.0, 0.4, 1.0, 59.0, -1.0, -3600.0, 86400.0]) for _ in range(rng.randrange(1, 5))],
        "start": rng.choice([1_650_000_000.0, 1_640_995_199.6, 1_648_771_199.9]),
    }


def valid(plan):
    return all(o["g"] < len(plan["grids"]) for o in plan["ops"])


class G:
    def __init__(self, spec):
        self.spec = spec
        self.g, self.dets, _ = c10.build(spec)
        for i, d in enumerate(self.g.detectors):
            if d.name is None and d not in self.dets:
                d.name = "current%d" % i  # the one a soft source brings along
        self.dir = None


def readings(t):
    """every reading of every detector of the grid (current detectors of soft sources included)"""
    out = []
    for d in t.g.detectors:
        for k, v in d.detector_values().items():
            out.append(("%s (%s)" % (d.name, k), np.array([c10.flat(x).detach().numpy() for x in v])))
    return out


def run(plan, W):
    home = os.getcwd()
    W.now = plan["start"]
    W.clock_steps = list(plan["clock"]) or [0.0]
    T = [G(s) for s in plan["grids"]]
    probes = {}
    sched = []
    keep = {}  # absolute path -> hash: everything on disk that must stay as it is
    dirs = set()
    outputs = irregular = 0

    def bump(k):
        probes[k] = probes.get(k, 0) + 1

    def disk():
        return {os.path.join(W.root, p): h for p, h in tree(W.root).items()}

    def settle(what, may=()):
        """cwd unchanged; no file changed or vanished but those the operation is entitled to"""
        if os.getcwd() != home:
            raise Violation("cwd", "after %s the working directory is %r" % (what, os.path.relpath(os.getcwd(), W.root)))
        now = disk()
        for p, h in keep.items():
            if p in may:
                continue
            if p not in now:
                raise Violation("lost", "%s removed %r" % (what, os.path.relpath(p, W.root)))
            if now[p] != h:
                raise Violation("overwritten", "%s changed %r" % (what, os.path.relpath(p, W.root)))
        keep.clear()
        keep.update(now)
        return now

    def attempt(fn, fault, what, may_refuse=False):
        nonlocal irregular, T
        W.arm([fault] if fault else [])
        before = dict(W.fired)
        val = exc = None
        try:
            val = fn()
        except (SimCrash, KeyboardInterrupt, Exception) as e:
            exc = e
        armed = [f for f in W.faults]
        W.disarm()
        hit = [k for k in W.fired if W.fired[k] > before.get(k, 0) and not k.startswith(("clock", "subprocess_ok", "write_short", "dir_order", "preemption"))]
        if hit:
            irregular += 1
        crashed = W.dead
        if crashed:
            os.chdir(home)
            restart()
            T = [G(s) for s in plan["grids"]]
            bump("crash_restart")
        elif exc is not None and not hit and not may_refuse:
            if isinstance(exc, (SimCrash, KeyboardInterrupt)):
                raise exc
            raise Violation("unexpected-exception", "%s failed without a fault: %r" % (what, exc))
        return val, exc, crashed, hit

    for n, o in enumerate(plan["ops"]):
        t = T[o["g"]]
        k = o["do"]
        what = "%s %d" % (k, n)
        fault = dict(o["fault"]) if o.get("fault") else None
        sched.append("%s%d%s%s" % (k, o["g"], fault and fault["kind"], o.get("popen", [{}])[0].get("kind")))
        if k == "run":
            t.g.run(o["n"], progress_bar=False)
            settle(what)
        elif k == "reset":
            t.g.reset()
            settle(what)
        elif k == "tweak":
            # another source: the next readings differ
            for src in t.g.sources:
                src.amplitude = 1.0 + (o["r"] % 7) / 3.0
            settle(what)
        elif k == "foreign":
            # unrelated files of the user next to the output
            for d in [home] + ([t.dir] if t.dir else []):
                with RAW["open"](os.path.join(d, "notes%d.txt" % (n % 3)), "w") as fh:
                    fh.write(str(n))
            with RAW["open"](os.path.join(home, "mine.png"), "w") as fh:
                fh.write(str(n))
            keep.clear()
            keep.update(disk())
        elif k == "restart":
            restart()
            T = [G(s) for s in plan["grids"]]
            irregular += 1
            W.fire("process_restart")
        elif k == "open":
            t0 = W.now
            old = set(dirs)
            existing = {os.path.join(b, d) for b, ds, fs in os.walk(W.root) for d in ds}
            val, exc, crashed, hit = attempt(lambda: t.g.save_simulation(o["name"]), fault, what)
            settle(what)
            if exc is None:
                outputs += 1
                d = os.path.realpath(val)
                if not os.path.isdir(d) or not os.path.isabs(val):
                    raise Violation("no-folder", "%s returned %r, which is no absolute path of a folder" % (what, val))
                if d in dirs or d in existing:
                    raise Violation("shared-folder", "%s got the folder %r of an earlier simulation" % (what, os.path.basename(d)))
                if o["name"] and o["name"] not in os.path.basename(d):
                    raise Violation("wrong-name", "%s named %r got the folder %r" % (what, o["name"], os.path.basename(d)))
                m = re.search(r"(\d+)-(\d+)-(\d+)-(\d+)-(\d+)-(\d+)", os.path.basename(d))
                if m and all(x >= 0 for x in plan["clock"]):
                    try:
                        ts = datetime(*[int(x) for x in m.groups()], tzinfo=timezone.utc).timestamp()
                    except ValueError:
                        ts = -1
                    if not int(t0) - 1 <= ts <= W.now + 1:
                        raise Violation("torn-timestamp", "%s: folder %r is named after a time that never was (%s..%s)" % (what, os.path.basename(d), t0, W.now))
                dirs.add(d)
                t.dir = d
                bump("folders")
            elif not crashed:
                # where a failed call leaves the simulation is not specified: open again
                t.dir = None
                t.g.folder = None
        elif k == "data":
            if t.dir is None:
                try:
                    t.g.save_data()
                except Exception:
                    settle(what)
                    continue
                raise Violation("no-location", "%s returned normally without an output folder" % what)
            want = readings(t)
            target = [p for p in keep if os.path.dirname(p) == t.dir and p.endswith(".npz")]
            tdir = t.dir
            val, exc, crashed, hit = attempt(t.g.save_data, fault, what, any(d.name is None for d in t.g.detectors))  # readings without a name may be refused
            now = settle(what, target)
            outputs += 1
            files = [p for p in now if os.path.dirname(p) == tdir and p.endswith(".npz")]
            if exc is None:
                good = False
                for p in files:
                    try:
                        got = load(p)
                    except Exception:
                        continue
                    good = good or same(got, want)
                if not good:
                    raise Violation("data", "%s returned normally, but no file in its folder holds the detector readings" % what)
                bump("data_ok")
            else:
                bump("data_failed")
                for p in files:
                    if p in target:
                        continue
                    try:
                        got = load(p)
                    except Exception:
                        bump("torn_files")
                        continue
                    # numpy may still list the arrays written before the failure; those must be right
                    if not same(got, [(q, v) for q, v in want if q in got]):
                        raise Violation("torn-loads-wrong", "the file left by failed %s loads to other readings" % what)
        elif k == "frame":
            if t.dir is None:
                continue
            import matplotlib.pyplot as plt

            path = os.path.join(t.dir, "file%04d.png" % o["index"])
            val, exc, crashed, hit = attempt(lambda: t.g.visualize(z=0, save=True, folder=t.dir, index=o["index"]), fault, what)
            plt.close("all")
            now = settle(what, [path])
            outputs += 1
            if exc is None:
                if path not in now:
                    raise Violation("frame", "%s returned normally but there is no frame %d" % (what, o["index"]))
                with RAW["open"](path, "rb") as fh:
                    if not fh.read().endswith(b":END"):
                        raise Violation("frame", "%s returned normally but frame %d is truncated" % (what, o["index"]))
                bump("frames")
        elif k == "video":
            if t.dir is None:
                W.popen_script = [dict(x) for x in o["popen"]]
                try:
                    t.g.generate_video(delete_frames=o["delete"])
                except Exception:
                    W.popen_script = []
                    settle(what)
                    continue
                raise Violation("no-location", "%s returned normally without an output folder" % what)
            video(t, o, fault, what, W, keep, settle, attempt, bump)
            outputs += 1
        elif k == "par":
            # two simulations writing at the same time from two threads
            u = T[(o["g"] + 1) % len(T)]
            if u is t or t.dir is None:
                continue
            W.popen_script = [dict(x) for x in o["popen"]]
            d0 = t.dir
            old = {p for p in keep if os.path.dirname(p) == d0 and (p.endswith(".png") or p.endswith(".mp4"))}
            s = Scheduler([lambda: t.g.generate_video(delete_frames=False), lambda: u.g.save_simulation(o["name"])], o["switches"], W)
            (s1, v1), (s2, v2) = s.run()
            W.popen_script = []
            if s2 == "exc":
                raise Violation("concurrent-output", "opening an output folder failed while another simulation encodes: %r" % (v2,))
            if s1 == "exc" and o["popen"][0]["kind"] == "ok":
                raise Violation("concurrent-output", "encoding failed while another simulation opens its folder: %r" % (v1,))
            u.dir = os.path.realpath(v2)
            if os.path.dirname(os.path.dirname(u.dir)) != home:
                raise Violation("concurrent-output", "the output folder of one simulation was put into %r while another one was encoding" % os.path.relpath(os.path.dirname(os.path.dirname(u.dir)), W.root))
            if u.dir in dirs:
                raise Violation("shared-folder", "%s got the folder of an earlier simulation" % what)
            dirs.add(u.dir)
            settle(what, {p for p in old if p.endswith(".mp4")})
            bump("parallel")
            irregular += s.preempts > 0
            outputs += 2
        W.ev(k, n, canon_hash(sorted((os.path.relpath(p, W.root), h) for p, h in keep.items() if not p.endswith(".npz"))))
    if any(d <= 0 for d in plan["clock"]):
        irregular += 1
    return dict(nontrivial=outputs >= 2 and irregular > 0, probes=probes, steps=len(plan["ops"]), sched=str(sched) + str(plan["clock"]))


def load(p):
    was = RAW["open"]
    with was(p, "rb") as fh:
        z = np.load(fh, allow_pickle=False)
        return {k: z[k] for k in z.files}


def same(a, b):
    """file contents (by key) hold exactly the readings b, each under its own key"""
    if len(a) != len(b):
        return False
    names = [k for k, _ in b]
    left = dict(a)
    for k, y in b:
        keys = [k] if names.count(k) == 1 and not k.startswith("None ") else list(left)
        for q in keys:
            x = np.asarray(left[q]) if q in left else None
            if x is not None and ((x.size == 0 and y.size == 0) or (x.shape == y.shape and np.array_equal(x, y, equal_nan=True))):
                del left[q]
                break
        else:
            return False
    return True


def video(t, o, fault, what, W, keep, settle, attempt, bump):
    mine = [p for p in keep if os.path.dirname(p) == t.dir]
    frames = sorted(p for p in mine if p.endswith(".png"))
    videos = [p for p in mine if p.endswith(".mp4")]
    W.popen_script = [dict(x) for x in o["popen"]]
    tdir = t.dir
    val, exc, crashed, hit = attempt(lambda: t.g.generate_video(delete_frames=o["delete"]), fault, what)
    W.popen_script = []
    enc_ok = o["popen"][0]["kind"] == "ok"
    # frames may go only when the encoder succeeded and deletion was asked for
    may = list(videos)
    if enc_ok and o["delete"]:
        may += frames
    now = settle(what, may)
    left = sorted(p for p in now if os.path.dirname(p) == tdir and p.endswith(".png"))
    if exc is None:
        if not enc_ok:
            raise Violation("video-unreported", "%s returned normally although the encoder failed (%s)" % (what, o["popen"][0]["kind"]))
        p = os.path.realpath(val) if isinstance(val, str) else None
        if not p or not os.path.isabs(val) or p not in now or os.path.dirname(p) != tdir:
            raise Violation("video", "%s returned %r, which is no video in the folder of the simulation" % (what, val))
        with RAW["open"](p, "rb") as fh:
            body = fh.read().decode()
        if body != "VIDEO:" + ",".join(os.path.basename(x) for x in frames):
            raise Violation("video", "%s encoded %r, the frames of the simulation are %r" % (what, body, [os.path.basename(x) for x in frames]))
        if o["delete"] and left:
            raise Violation("frames-left", "%s kept the frames it was asked to delete" % what)
        if not o["delete"] and left != frames:
            raise Violation("frames-lost", "%s removed frames although it was not asked to" % what)
        bump("videos_ok")
    else:
        bump("videos_failed")
        vids = [p for p in now if os.path.dirname(p) == tdir and p.endswith(".mp4")]
        if left != frames and not any(_full(p) for p in vids):
            raise Violation("frames-lost", "%s failed without a complete video and removed frames" % what)


def _full(p):
    with RAW["open"](p, "rb") as fh:
        return fh.read().startswith(b"VIDEO:")
