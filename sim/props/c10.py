"""C10: an FDTD simulation depends only on its set-up and the number of steps, not on how it is driven."""
import json
import math
import pickle
import random
import sys

import numpy as np
import torch

from ..core import Violation, isolated, rng_for
from ..sched import Scheduler
from ..trace import LineInjector
from ..util import nidn, canon, canon_hash, diff_keys, close
from .. import ops as O

QUICK = dict(runs=1300, budget=80)
THOROUGH = dict(runs=60000, budget=1500)
RUN_LIMIT = 120
RULE = (
    "a run drives 1-3 grids (1D-3D, PML/periodic boundaries, point/line/plane sources of all signals, dielectric and absorbing objects, "
    "line/block/current detectors) through a seeded history of run, step, threaded stepping, interruption at an arbitrary executed line, NaN "
    "poisoning of the fields, reset, checkpoint/restore and unrelated work, and compares fields, samples and gradients bitwise with the "
    "same number of steps done at once in a pristine process; non-trivial if some grid made at least two separate advances; distinct by event-log digest"
)
REAL = ["FDTD grid, boundaries, sources, objects, detectors, backend", "torch autograd"]
STUB = ["thread scheduler", "delivery point of the interrupt", "blow-up of the fields (written into them)"]
SCHED_MEASURE = "distinct histories of grid operations as executed"


def F():
    from importlib import import_module

    return import_module("nidn.fdtd")


def gen_grid(r):
    g = {}
    dim = r.choice([1, 2, 2, 2, 3])
    nx = r.randrange(11, 18)
    ny = {1: 1, 2: r.choice([3, 3, 5]), 3: 4}[dim]
    nz = 4 if dim == 3 else 1
    g["shape"] = [nx, ny, nz]
    g["spacing"] = r.choice([1e-7, 2.5e-8])
    g["pml"] = [r.choice([0, 3, 4]), r.choice([0, 3])]
    g["per_x"] = g["pml"] == [0, 0] and r.random() < 0.5
    g["per_y"] = ny > 1 and r.random() < 0.7
    g["per_z"] = nz > 1 and r.random() < 0.5
    # absorbing boundaries of the other directions (they need room)
    g["pml_y"], g["pml_z"] = [0, 0], [0, 0]
    if dim > 1 and r.random() < 0.35:
        g["shape"][1] = ny = 9
        g["pml_y"] = r.choice([[3, 0], [0, 3], [3, 3]])
        g["per_y"] = False
    if dim == 3 and r.random() < 0.5:
        g["shape"][2] = nz = 9
        g["pml_z"] = r.choice([[3, 0], [0, 3], [3, 3]])
        g["per_z"] = False
    g["bg"] = [r.choice([1.0, 1.0, 2.25]), r.choice([1.0, 1.0, 1.5]), r.choice([None, None, 0.4])]
    kinds = ["point", "line"] if ny > 1 else ["point"]
    if nz > 1:
        kinds.append("plane")
    if ny > 2:
        kinds.append("soft")
    g["sources"] = [
        {
            "kind": r.choice(kinds),
            "signal": r.choice(["continuous", "hanning", "ricker"]),
            "period": r.choice([5, 9, round(r.uniform(3, 9), 2) * 1e-15]),
            "amp": round(r.uniform(0.3, 2), 3),
            "x": r.randrange(4, 7),
            "imp": r.choice([0.0, 50.0]),
            "place": r.randrange(6),
            "phase": r.choice([0.0, 0.0, 0.7]),
        }
        for _ in range(r.choice([1, 1, 2]))
    ]
    for s in g["sources"]:
        s["short"] = s["signal"] != "continuous" and r.random() < 0.5  # a pulse that is over soon
        if s["signal"] != "continuous" and not isinstance(s["period"], float):
            s["period"] = 4e-15
        if s["short"] and s["signal"] == "ricker":
            s["period"] = 5e-16 * (g["spacing"] / 1e-7)
    g["objects"] = [
        {"x": [7, 7 + r.randrange(1, 4)], "eps": round(r.uniform(1.2, 6), 3), "cond": r.choice([None, 0.0, round(r.uniform(10, 1e5), 2)]), "grid": r.random() < 0.3, "place": r.randrange(5)}
        for _ in range(r.choice([0, 1, 1]))
    ]
    dets = []
    for _ in range(r.choice([1, 2, 2, 3])):
        k = r.choice(["line", "line", "line", "block", "current"])
        if ny < 3 and k != "block":
            k = "block"
        d = {"kind": k, "x": r.randrange(3, nx - 3), "named": r.random() < 0.7}
        if k == "line":
            d["along"] = r.choice(["y", "y", "x", "x", "xy", "list"])
            d["len"] = r.randrange(2, 5)
        if k == "block":
            d["size"] = [r.choice([0, 1, 2]), r.choice([0, 1]) if ny > 1 else 0]
        dets.append(d)
    g["detectors"] = dets
    if dim == 3 and r.random() < 0.15:  # absorbing on all sides
        g["shape"] = [9, 9, 9]
        g["border"] = 3
        g["pml"] = g["pml_y"] = g["pml_z"] = [0, 0]
        g["per_x"] = g["per_y"] = g["per_z"] = False
        for o in g["objects"]:
            o["x"] = [4, 6]
        for s in g["sources"]:
            s["x"] = min(s["x"], 5)
        for d in dets:
            d["x"] = min(d["x"], 5)
    g["grad"] = bool(g["objects"]) and r.random() < 0.35
    return g


def build(spec, grid_class=None):
    f = F()
    nx, ny, nz = spec["shape"]
    bg = spec.get("bg", [1.0, 1.0, None])
    g = (grid_class or f.Grid)((nx, ny, nz), grid_spacing=spec["spacing"], permittivity=bg[0], permeability=bg[1], courant_number=bg[2])
    a, b = spec["pml"]
    if a:
        g[0:a, :, :] = f.PML(name="plow")
    if b:
        g[-b:, :, :] = f.PML(name="phigh")
    if spec["per_x"]:
        g[0, :, :] = f.PeriodicBoundary(name="xb")
    if spec["per_y"]:
        g[:, 0, :] = f.PeriodicBoundary(name="yb")
    if spec["per_z"]:
        g[:, :, 0] = f.PeriodicBoundary(name="zb")
    a, b = spec.get("pml_y", [0, 0])
    if a:
        g[:, 0:a, :] = f.PML(name="ylow")
    if b:
        g[:, -b:, :] = f.PML(name="yhigh")
    a, b = spec.get("pml_z", [0, 0])
    if a:
        g[:, :, 0:a] = f.PML(name="zlow")
    if b:
        g[:, :, -b:] = f.PML(name="zhigh")
    if spec.get("border"):
        from importlib import import_module

        import_module("nidn.fdtd.boundaries").DomainBorderPML(g, spec["border"])
    for i, s in enumerate(spec["sources"]):
        if s["kind"] == "soft":
            from importlib import import_module

            wave = np.array([s["amp"] * 1e-8 * math.sin(0.7 * j + 0.2) for j in range(9)])
            g[s["x"], ny // 2, nz // 2] = import_module("nidn.fdtd.sources").SoftArbitraryPointSource(wave, name="src%d" % i, impedance=s.get("imp", 0.0))
            continue
        kw = dict(period=s["period"], amplitude=s["amp"], name="src%d" % i)
        kw["phase_shift"] = s.get("phase", 0.0)
        pl = s.get("place", 0)
        if s["kind"] == "plane":
            if pl % 3 == 0:
                g[s["x"], :, :] = f.PlaneSource(polarization="zy"[pl // 3], **kw)
            elif pl % 3 == 1:
                g[:, ny // 2, :] = f.PlaneSource(polarization="zx"[pl // 3], **kw)
            else:
                g[3:8, :, nz // 2] = f.PlaneSource(polarization="xy"[pl // 3], **kw)
            continue
        kw.update(signal_type=s["signal"], cycle=1 if s.get("short") else 5, hanning_dt=5e-15 if s.get("short") else 1e-15)
        if s["kind"] == "line":
            if pl < 3:
                g[s["x"], :, 0] = f.LineSource(**kw)
            elif pl == 3:
                g[s["x"]:s["x"] + 4, ny // 2, 0] = f.LineSource(**kw)
            elif pl == 4:
                g[s["x"]:s["x"] + 3, 0:3, 0] = f.LineSource(**kw)
            else:
                g[[s["x"], s["x"] + 1, s["x"] + 3], [0, 1, 2], [0, 0, 0]] = f.LineSource(**kw)
        else:
            g[s["x"], ny // 2, 0] = f.PointSource(**kw)
    leaves = []
    for i, o in enumerate(spec["objects"]):
        e = torch.tensor(o["eps"], dtype=torch.float64, requires_grad=spec["grad"])
        leaves.append(e)
        # where it lies: the whole cross-section, or part of it
        pl = o.get("place", 0)
        sx = slice(*o["x"])
        sy = slice(None)
        if pl == 3 and ny > 1:
            sy = slice(1, 3)
        elif pl == 4:
            sx = slice(o["x"][0] - nx, o["x"][1] - nx if o["x"][1] < nx else None)
        if o.get("grid") and pl < 3:  # one permittivity per cell
            w = torch.linspace(1.0, 1.5, (o["x"][1] - o["x"][0]) * ny * nz, dtype=torch.float64)
            e = e * w.reshape(o["x"][1] - o["x"][0], ny, nz)
        if o["cond"] is None:
            g[sx, sy, :] = f.Object(permittivity=e, name="obj%d" % i)
        else:
            g[sx, sy, :] = f.AbsorbingObject(permittivity=e, conductivity=torch.tensor(o["cond"], dtype=torch.float64), name="obj%d" % i)
    dets = []
    for i, d in enumerate(spec["detectors"]):
        name = "det%d" % i if d["named"] else None
        if d["kind"] == "line":
            x = f.LineDetector(name=name)
            a, l = d["x"], d.get("len", 0)
            a = min(a, nx - l)
            if d.get("along", "y") == "y":
                g[d["x"], :, 0] = x
            elif d["along"] == "x":
                g[a:a + l, 1, 0] = x
            elif d["along"] == "xy":
                l = min(l, ny)
                g[a:a + l, 0:l, 0] = x
            else:
                cl = cells_of(d, spec)
                g[[c[0] for c in cl], [c[1] for c in cl], [c[2] for c in cl]] = x
        elif d["kind"] == "block":
            x = f.BlockDetector(name=name)
            sx, sy = d.get("size", [0, 0])
            if sx or sy:
                # (the upper ends of block detectors are inclusive)
                g[d["x"]:d["x"] + sx, 0:sy, 0:0] = x
            else:
                g[d["x"], 0, 0] = x
        else:
            x = f.CurrentDetector(name=name)
            if d["x"] % 2:
                g[d["x"], 1, 0] = x
            else:
                g[d["x"]:d["x"] + 1, 1:1, 0:0] = x
        dets.append(x)
    return g, dets, leaves


def cells_of(d, spec):
    """the cells a line detector covers, in order"""
    nx, ny, nz = spec["shape"]
    a, l = d["x"], d.get("len", 0)
    a = min(a, nx - l)
    k = d.get("along", "y")
    if k == "y":
        return [(d["x"], j, 0) for j in range(ny)]
    if k == "x":
        return [(a + i, 1, 0) for i in range(l)]
    if k == "xy":
        l = min(l, ny)
        return [(a + i, i, 0) for i in range(l)]
    return [(a + (2 * i) % l, i % ny, 0) for i in range(l)]


def flat(o):
    """tensor view of a sample (nested lists of tensors)"""
    if isinstance(o, torch.Tensor):
        return o
    if isinstance(o, (list, tuple)):
        return torch.stack([torch.as_tensor(flat(x)) for x in o])
    return torch.as_tensor(o)


def loss_of(dets, counts):
    s = 0.0
    for d in dets:
        for k, v in sorted(d.detector_values().items()):
            for x in v[len(v) - counts:] if counts else []:
                s = s + (flat(x) ** 2).sum()
    return s


def observe(g, dets, n, leaves, grad):
    """Everything visible after n steps since the start or the last reset."""
    out = {"E": canon(g.E + 0.0), "H": canon(g.H + 0.0), "steps": int(g.time_steps_passed), "time": canon(float(g.time_passed))}
    for i, d in enumerate(dets):
        for k, v in sorted(d.detector_values().items()):
            out["det%d.%s" % (i, k)] = canon([canon(flat(x) + 0.0) for x in (v[len(v) - n:] if n else [])])
    if grad and n and leaves:
        s = loss_of(dets, n)
        if isinstance(s, torch.Tensor) and s.requires_grad:
            gr = torch.autograd.grad(s, leaves, retain_graph=True, allow_unused=True)
            out["grad"] = [float(x) if x is not None else None for x in gr]
    return out


def reference(spec, n):
    g, dets, leaves = build(spec)
    if n:
        g.run(n, progress_bar=False)
    return observe(g, dets, n, leaves, spec["grad"])


def gen(rng, tier, idx):
    ng = rng.choice([1, 1, 2, 2, 3])
    grids = [gen_grid(rng) for _ in range(ng)]
    if ng > 1 and rng.random() < 0.5:
        grids[1] = json.loads(json.dumps(grids[0]))
    ops = []
    for _ in range(rng.randrange(3, 10 if tier == "quick" else 18)):
        k = rng.choice(["run"] * 6 + ["step"] * 3 + ["reset"] * 3 + ["interrupt"] * 2 + ["poison", "restore", "par", "par", "look", "other", "runf", "save"])
        o = {"do": k, "g": rng.randrange(ng), "r": rng.randrange(1 << 30)}
        if k in ("run", "par", "interrupt", "runf"):
            o["n"] = rng.choice([1, 2, 3, 5, 8]) if k != "run" or rng.random() < 0.9 else 0
            if k == "run" and rng.random() < 0.12:
                o["n"] = rng.randrange(12, 26)  # beyond the end of short pulses
            elif k == "run" and rng.random() < 0.03 and not grids[o["g"]]["grad"]:
                o["n"] = rng.randrange(90, 160)
        if k == "interrupt":
            o["at"] = int(math.exp(rng.uniform(0, math.log(120 * max(1, o["n"])))))
        if k == "par":
            o["m"] = rng.choice([1, 2, 4])
            o["switches"] = [[rng.randrange(2), int(math.exp(rng.uniform(0, math.log(150))))] for _ in range(rng.choice([3, 8, 20]))]
        ops.append(o)
        # a fault is usually followed by the recovery
        if k == "poison" and rng.random() < 0.5:
            ops.append({"do": "interrupt", "g": o["g"], "r": 0, "n": 2, "at": int(math.exp(rng.uniform(math.log(10), math.log(200))))})
        if k in ("interrupt", "poison") and rng.random() < 0.75:
            ops.append({"do": "reset", "g": o["g"], "r": 0})
            ops.append({"do": "run", "g": o["g"], "r": 0, "n": rng.randrange(1, 7)})
        if o.get("n", 0) > 10 and rng.random() < 0.6:
            ops.append({"do": "reset", "g": o["g"], "r": rng.randrange(1 << 30)})
            ops.append({"do": "run", "g": o["g"], "r": 0, "n": rng.randrange(1, 20)})
    if rng.random() < 0.08:  # the very first step goes wrong
        ops.insert(0, {"do": "poison", "g": 0, "r": rng.randrange(1 << 30), "dry": True})
        ops.insert(1, {"do": "interrupt", "g": 0, "r": 0, "n": 1, "at": int(math.exp(rng.uniform(math.log(10), math.log(110))))})
        ops.insert(2, {"do": "reset", "g": 0, "r": 0})
        ops.insert(3, {"do": "run", "g": 0, "r": 0, "n": rng.randrange(1, 7)})
    return {"grids": grids, "ops": ops}


def valid(plan):
    return all(o["g"] < len(plan["grids"]) for o in plan["ops"])


class Track:
    def __init__(self, spec):
        self.spec = spec
        self.g, self.dets, self.leaves = build(spec)
        self.n = 0  # steps since start/reset
        self.dirty = False
        self.adv = 0
        self.tol = (0.0, 0.0)
        self.seen = [{k: [] for k in d.detector_values()} for d in self.dets]  # (object, hash) of all samples so far

    def collect(self, expect=None):
        """new samples since the last look; older ones must be unchanged"""
        for i, d in enumerate(self.dets):
            vals = d.detector_values()
            for k, old in self.seen[i].items():
                v = vals[k]
                if expect is not None and len(v) != len(old) + expect:
                    raise Violation("sample-count", "detector %d (%s) took %d %s samples in %d steps" % (i, self.spec["detectors"][i]["kind"], len(v) - len(old), k, expect))
                for j, h in enumerate(old):
                    if j < len(v) and canon_hash(flat(v[j])) != h:
                        raise Violation("sample-changed", "sample %d of detector %d (%s) changed after it was taken" % (j, i, k))
                for x in v[len(old):]:
                    old.append(canon_hash(flat(x)))

    def check_last(self):
        """the newest sample is the field at the detector at that time"""
        nx, ny, nz = self.spec["shape"]
        for i, (d, ds) in enumerate(zip(self.dets, self.spec["detectors"])):
            if ds["kind"] == "line":
                v = d.detector_values()
                cl = cells_of(ds, self.spec)
                for k, fld in (("E", self.g.E), ("H", self.g.H)):
                    here = torch.stack([fld[c].detach() for c in cl])
                    if v[k] and not torch.equal(torch.nan_to_num(flat(v[k][-1]).detach()), torch.nan_to_num(here)):
                        raise Violation("sample-wrong", "the newest %s sample of line detector %d is not the field at its place" % (k, i))

    def verify(self, why):
        if self.dirty:
            return
        ref = isolated(reference, self.spec, self.n)
        got = observe(self.g, self.dets, self.n, self.leaves, self.spec["grad"])
        # the order in which autograd sums depends on the threads that recorded the steps
        ga, gb = ref.pop("grad", None), got.pop("grad", None)
        if (ga is None) != (gb is None) or (ga and not all((x is None) == (y is None) and (x is None or close(x, y, *self.tol)) for x, y in zip(ga, gb))):
            raise Violation("gradient", "after %s: gradients %s, but %s when %d steps are done at once on a fresh grid" % (why, gb, ga, self.n))
        if json.dumps(ref, sort_keys=True) != json.dumps(got, sort_keys=True):
            raise Violation("history-dependence", "after %s: %s differ from %d steps done at once on a fresh grid" % (why, diff_keys(ref, got), self.n))


def run(plan, W):
    T = [Track(s) for s in plan["grids"]]
    probes = {"resets": 0, "resets_after_fault": 0, "interrupted": 0, "steps": 0}
    hist = []
    preempt = 0
    for o in plan["ops"]:
        t = T[o["g"]]
        k = o["do"]
        g = t.g
        if k in ("run", "step", "runf"):
            n = o["n"] if k != "step" else 1
            if k == "step":
                g.step()
            elif k == "runf":
                # time given in seconds: half a step more, so that no rounding decides
                g.run((n + 0.5) * g.time_step, progress_bar=False)
            elif o["r"] % 7 == 0:
                with O.silence():
                    g.run(n)
            else:
                g.run(n, progress_bar=False)
            t.n += n
            t.adv += 1
            if t.dirty:
                t.collect()
            else:
                t.collect(n)
                if n:
                    t.check_last()
        elif k == "interrupt":
            inj = LineInjector(o["at"], KeyboardInterrupt("simulated"), prefixes=("fdtd/",))
            before = [canon_hash([flat(x) for x in v]) for d in t.dets for v in d.detector_values().values()]
            try:
                sys.settrace(inj)
                try:
                    g.run(o["n"], progress_bar=False)
                finally:
                    sys.settrace(None)
            except KeyboardInterrupt:
                W.fire("interrupt")
                probes["interrupted"] += 1
                t.dirty = True
                t.collect()
                hist.append(str(inj.where))
            else:
                t.n += o["n"]
                if not t.dirty:
                    t.collect(o["n"])
                else:
                    t.collect()
            t.adv += 1
        elif k == "poison":
            r = random.Random(o["r"])
            with torch.no_grad():
                for fld in (g.E, g.H):
                    if r.random() < 0.8:
                        idx = tuple(r.randrange(s) for s in fld.shape)
                        fld.data[idx] = r.choice([float("nan"), float("inf"), 1e200])
            if not o.get("dry"):
                g.run(1, progress_bar=False)
            t.collect()
            t.dirty = True
            W.fire("field_blowup")
        elif k == "reset":
            if t.dirty:
                probes["resets_after_fault"] += 1
            g.reset()
            probes["resets"] += 1
            # detectors may or may not forget, but never rewrite what they hold
            for i, d in enumerate(t.dets):
                for kk, v in d.detector_values().items():
                    if len(v) == 0:
                        t.seen[i][kk] = []
            t.collect()
            t.n = 0
            t.dirty = False
            if g.time_steps_passed != 0:
                raise Violation("reset", "the step counter is %r after a reset" % (g.time_steps_passed,))
        elif k == "restore":
            if t.spec["grad"] or t.dirty:
                continue
            try:
                copied = pickle.loads(pickle.dumps((t.g, t.dets)))
            except (AttributeError, TypeError, pickle.PicklingError):  # that a simulation can be pickled is not promised
                continue
            t.g, t.dets = copied
            W.fire("checkpoint_restore")
        elif k == "par":
            if len(T) < 2:
                continue
            u = T[(o["g"] + 1) % len(T)]
            a, b, n, m = t, u, o["n"], o["m"]
            s = Scheduler([lambda: a.g.run(n, progress_bar=False), lambda: b.g.run(m, progress_bar=False)], o["switches"], W)
            for st, val in s.run():
                if st == "exc":
                    raise Violation("interleaved-exception", "stepping two grids in turns failed: %r" % (val,))
            preempt += s.preempts
            for x, q in ((a, n), (b, m)):
                x.n += q
                x.adv += 1
                x.tol = (1e-8, 1e-12)
                x.collect(None if x.dirty else q)
        elif k == "look":
            str(g), repr(g), g.shape, g.x, g.time_passed
            [str(d) for d in t.dets]
            loss_of(t.dets, min(t.n, 2))
        elif k == "other":
            O.do_spectrum({"solver": "FDTD", "N_freq": 1, "FDTD_niter": 12, "N_layers": 1}, o["r"] % 1000)
        elif k == "save":
            if all(x["named"] for x in t.spec["detectors"]) and not t.spec["grad"]:
                g.save_simulation("s%d" % (o["r"] % 97))
                g.save_data()
        if not t.dirty and g is t.g and g.time_steps_passed != t.n:
            raise Violation("step-count", "%r steps counted after %d steps (%s)" % (g.time_steps_passed, t.n, k))
        hist.append("%s:%d:%s" % (k, o["g"], o.get("n", "")))
        probes["steps"] += o.get("n", 1)
        if random.Random(o["r"] + 5).random() < 0.3:
            t.verify(k)
    for i, t in enumerate(T):
        t.verify("the whole history")
        if not t.dirty and t.n:  # state that has not shown up in the fields yet
            t.g.run(3, progress_bar=False)
            t.n += 3
            t.verify("the whole history and three more steps")
        W.ev("grid", i, t.n, canon_hash(observe(t.g, t.dets, 0 if t.dirty else t.n, t.leaves, False)))
    W.ev("hist", " ".join(hist))
    return dict(nontrivial=any(t.adv >= 2 for t in T), probes=dict(probes, preemptions=preempt), steps=probes["steps"], sched=canon_hash(hist))
