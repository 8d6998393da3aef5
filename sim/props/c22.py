"""C22: a refused request raises an error and leaves no trace."""
import json
import os
import random
import sys
from importlib import import_module

import numpy as np
import torch

from ..core import Violation, Pristine
from ..util import nidn, mkcfg, freqs, canon, canon_hash, diff_keys
from .. import ops as O
from . import c10

QUICK = dict(runs=700, budget=60)
THOROUGH = dict(runs=60000, budget=1500)
RUN_LIMIT = 180
RULE = (
    "a run carries out a seeded history of valid work (building and driving FDTD grids; training, spectra, layers, saving and loading) and "
    "injects requests that cannot be carried out between any two steps of it; each must raise, leave the arguments, the configuration, the "
    "random generators and the process as they were, and the valid work must give bitwise what it gives in a pristine process without the "
    "refused requests; non-trivial if at least one request was refused; distinct by event-log digest"
)
REAL = ["FDTD grid and components", "validation", "training", "TRCWA", "layer builder", "material data base", "save_run/load_run"]
STUB = ["which requests are refused, and when, is decided by the simulator"]
SCHED_MEASURE = "distinct histories of (valid step, refused request)"


# ------------------------------------------------------------------ refused placements in a grid
def _taken(g, r):
    """a name the grid already uses"""
    own = [c.name for l in (g.sources, g.detectors, g.boundaries, g.objects) for c in l if c.name]
    return r.choice(own + ["E", "H", "step", "sources", "folder", "courant_number"])


def refuse_grid(g, kind, seed):
    """try something the grid has to refuse; returns the name of what was tried"""
    f = c10.F()
    r = random.Random(seed)
    nx, ny, nz = g.Nx, g.Ny, g.Nz
    x = r.randrange(2, nx - 2)
    if g.objects and r.random() < 0.6:  # where something lies already
        x = min(g.objects[0].x.start, nx - 3)
    if kind == "name_detector":
        c = r.choice([f.LineDetector, f.BlockDetector, f.CurrentDetector])(name=_taken(g, r))
        g[x, 0, 0] = c
    elif kind == "name_source":
        k = r.randrange(3)
        n = _taken(g, r)
        if k == 0:
            g[x, ny // 2, 0] = f.PointSource(period=7, amplitude=3.0, name=n)
        elif k == 1:
            g[x, :, 0] = f.LineSource(period=7, amplitude=3.0, name=n)
        else:
            g[x, :, :] = f.PlaneSource(period=7, amplitude=3.0, name=n)
    elif kind == "name_object":
        n = _taken(g, r)
        if r.random() < 0.5:
            g[x:x + 2, :, :] = f.Object(permittivity=3.3, name=n)
        else:
            g[x:x + 2, :, :] = f.AbsorbingObject(permittivity=3.3, conductivity=50.0, name=n)
    elif kind == "name_boundary":
        n = _taken(g, r)
        k = r.randrange(3)
        if k == 0:
            g[0:3, :, :] = f.PML(name=n)
        elif k == 1:
            g[-3:, :, :] = f.PML(name=n)
        else:
            g[:, 0, :] = f.PeriodicBoundary(name=n)
    elif kind == "place_source":
        n = "extra_source%d" % seed
        if r.random() < 0.5:
            g[x:x + 2, 0, 0] = f.PointSource(period=7, name=n)
        else:
            g[[x, x + 1], [0], [0]] = f.LineSource(period=7, name=n)
    elif kind == "place_detector":
        n = "extra_detector%d" % seed
        c = r.choice([f.LineDetector, f.BlockDetector, f.CurrentDetector])(name=n if r.random() < 0.7 else None)
        g[[x, x + 1], [0], [0]] = c
    elif kind == "place_object":
        n = "extra_object%d" % seed
        k = r.randrange(4)
        if k == 0:
            g[[1, 2], :, :] = f.Object(permittivity=3.3, name=n)
        elif k == 1:
            g[1:7:2, :, :] = f.Object(permittivity=3.3, name=n)
        elif k == 2:
            g[x:x + 2, :, :] = f.Object(permittivity=torch.ones((3, 2, 7)), name=n)
        else:
            g[x:x + 2, :, :] = f.AbsorbingObject(permittivity=3.3, conductivity=torch.ones((3, 2, 7)), name=n)
    elif kind == "place_boundary":
        n = "extra_boundary%d" % seed
        k = r.randrange(3)
        if k == 0:
            g[x, 1:2, 1:2] = f.PeriodicBoundary(name=n)
        elif k == 1:
            g[[0, 1], :, :] = f.PeriodicBoundary(name=n)
        else:
            g[[0, 1], :, :] = f.PML(name=n)
    elif kind == "occupied":
        # a side that has its boundary already
        n = "extra_boundary%d" % seed
        side = [s for s in ("xlow", "xhigh", "ylow", "yhigh", "zlow", "zhigh") if hasattr(g, "_%s_boundary" % s)]
        if not side:
            g[0, 0, 0, 0] = f.PML(name=n)
        else:
            s = r.choice(side)
            ax = "xyz".index(s[0])
            key = [slice(None)] * 3
            if r.random() < 0.5:
                key[ax] = 0 if s.endswith("low") else -1
                g[tuple(key)] = f.PeriodicBoundary(name=n)
            else:
                key[ax] = slice(0, 3) if s.endswith("low") else slice(-3, None)
                g[tuple(key)] = f.PML(name=n)
    elif kind == "indices":
        g[x, 0, 0, 0] = r.choice([f.LineDetector(name="extra%d" % seed), f.PointSource(period=7, name="extra%d" % seed), f.Object(permittivity=2.0, name="extra%d" % seed)])
    elif kind == "anisotropic":
        g[x:x + 2, :, :] = f.AnisotropicObject(permittivity=3.0, name="extra%d" % seed)
    elif kind == "unsaved":
        if g.folder is not None:
            raise ValueError("a folder was chosen")
        if r.random() < 0.5:
            g.save_data()
        else:
            g.generate_video()
    elif kind == "new_grid":
        if r.random() < 0.5:
            f.Grid((nx, ny, nz), grid_spacing=1e-7, courant_number=5.0)
        else:
            f.Grid((nx, ny), grid_spacing=1e-7)
    else:
        raise AssertionError(kind)


GRID_KINDS = ["name_detector", "name_source", "name_object", "name_object", "name_boundary", "place_source", "place_detector", "place_object", "place_boundary", "occupied", "indices", "anisotropic", "unsaved", "new_grid"]

# ------------------------------------------------------------------ refused requests to the rest
BAD = [
    ("Nx", 0), ("Nx", "4"), ("N_layers", -1), ("N_freq", 2.5), ("seed", "x"), ("L", 0.0), ("L", "one"), ("real_min_eps", 99.0), ("imag_min_eps", 99.0),
    ("physical_wavelength_range", [4e-6, 1e-6]), ("physical_wavelength_range", 3), ("type", "both"), ("add_noise", 1), ("freq_distribution", "cubic"),
    ("learning_rate", 0.0), ("noise_scale", -1.0), ("iterations", 0), ("PER_LAYER_THICKNESS", [0.1] * 7), ("PER_LAYER_THICKNESS", 0.4), ("TRCWA_NG", -3),
    ("TRCWA_L_grid", [[0.1, 0.1], [0.1, 0.1]]), ("FDTD_source_type", "ring"), ("FDTD_pulse_type", "square"), ("FDTD_source_position", [1]), ("FDTD_niter", 0),
    ("FDTD_gridpoints_from_material_to_detector", 900), ("eps_oversampling", 5), ("avoid_zero_eps", "no"), ("n_neurons", 0), ("unheard_of", 1), ("use_gpu", None),
    ("reg_loss_weight", 0.0), ("model_type", 7), ("target_reflectance_spectrum", "flat"),
    ("iterations", 2.5), ("iterations", "many"), ("hidden_layers", 1.5), ("model_type", "mlp"), ("solver", "MEEP"), ("PER_LAYER_THICKNESS", [-0.4]), ("FDTD_source_position", [-0.3, 0.1]),
]
MISSING = ["seed", "N_freq", "solver", "learning_rate", "model_type", "PER_LAYER_THICKNESS", "name", "L"]


def refuse_run(c, kind, seed, W):
    n = nidn()
    r = random.Random(seed)
    if kind in ("train_bad", "spectrum_bad"):
        c2 = c
        if r.random() < 0.8:
            k, v = r.choice(BAD)
            had, old = k in c2, c2[k] if k in c2 else None
            c2[k] = json.loads(json.dumps(v))
        else:
            k, v = r.choice(MISSING), None
            had, old = True, c2[k]
            del c2[k]
        before = canon_hash(dict(c2))
        try:
            if kind == "train_bad":
                n.run_training(c2)
            else:
                # (a grid of the size of the valid configuration)
                e = torch.ones((2, 2, 2, 2), dtype=torch.complex128)
                n.compute_spectrum(e, c2)
        finally:
            changed = canon_hash(dict(c2)) != before
            if had:
                c2[k] = old
            elif k in c2:
                del c2[k]
            if changed:
                raise Violation("trace-in-cfg", "%s: the refused configuration was changed (%s=%r)" % (kind, k, v))
    elif kind in ("spectrum_nan", "spectrum_shape", "spectrum_nofreq"):
        c.target_frequencies = freqs(c)
        e = O.some_eps(c, seed, 1.5, 4.0)
        if kind == "spectrum_nan":
            if c.solver == "FDTD":
                raise ValueError("not checked for FDTD")
            e[r.randrange(e.shape[0]), 0, r.randrange(e.shape[2]), r.randrange(e.shape[3])] = float("nan")
        elif kind == "spectrum_shape":
            if c.solver == "FDTD":
                raise ValueError("not checked for FDTD")
            d = r.randrange(4)
            e = torch.cat([e, e], dim=d)
        else:
            if c.solver == "FDTD":
                raise ValueError("not needed for FDTD")
            keep = c.target_frequencies
            del c["target_frequencies"]
            try:
                n.compute_spectrum(e, c)
            finally:
                c.target_frequencies = keep
        h = canon_hash(canon(e))
        try:
            n.compute_spectrum(e, c)
        finally:
            if canon_hash(canon(e)) != h:
                raise Violation("trace-in-input", "%s: the refused permittivities were changed" % kind)
    elif kind == "layers":
        k = r.randrange(3)
        b = n.LayerBuilder(_lcfg())
        if k == 0:
            b.build_uniform_layer("no_such_material")
        elif k == 1:
            b.build_squared_layer("titanium_oxide", "no_such_material")
        else:
            b.build_circle_layer("no_such_material", "titanium_oxide")
    elif kind == "material":
        n.MaterialCollection(np.array([0.3, 0.5]))["no_such_material"]
    elif kind == "load":
        k = r.randrange(3)
        p = os.path.join(W.root, "refused")
        os.makedirs(p, exist_ok=True)
        p = os.path.join(p, "nothing%d" % seed)
        if k:
            with open(p, "wb") as fh:
                fh.write(b"" if k == 1 else b"\x80\x04garbage")
        n.load_run(p)
    else:
        raise AssertionError(kind)


def _lcfg():
    c = mkcfg(dict(Nx=3, Ny=3, N_freq=2))
    c.target_frequencies = freqs(c)
    return c


RUN_KINDS = ["train_bad"] * 5 + ["spectrum_bad"] * 3 + ["spectrum_nan", "spectrum_shape", "spectrum_nofreq", "layers", "material", "load"]


# ------------------------------------------------------------------ plans
def gen(rng, tier, idx):
    plan = {}
    if rng.random() < 0.6:
        spec = c10.gen_grid(rng)
        plan["grid"] = spec
        places = 6 + len(spec["sources"]) + len(spec["objects"]) + len(spec["detectors"])
        plan["early"] = [[rng.randrange(places), rng.choice(GRID_KINDS), rng.randrange(1 << 20)] for _ in range(rng.choice([0, 0, 1, 2, 4]))]
        ops = []
        for _ in range(rng.randrange(2, 8 if tier == "quick" else 14)):
            k = rng.choice(["run", "run", "refuse", "refuse", "refuse", "reset", "save", "foreign"])
            o = {"do": k, "r": rng.randrange(1 << 20)}
            if k == "run":
                o["n"] = rng.choice([1, 2, 4, 7])
            if k == "refuse":
                o["kind"] = rng.choice(GRID_KINDS)
            if k == "foreign":
                o["kind"] = rng.choice(RUN_KINDS)
            ops.append(o)
        plan["ops"] = ops + [{"do": "run", "n": 3, "r": 0}]
    else:
        fd = rng.random() < 0.12
        plan["cfg"] = O.tame_cfg(rng, "FDTD" if fd else None)
        plan["cfg"]["iterations"] = 1 if fd else rng.choice([1, 2, 3])
        ops = []
        for _ in range(rng.randrange(3, 8 if tier == "quick" else 14)):
            k = rng.choice(["train", "spectrum", "eps", "layers", "draw"] + ["refuse"] * 5 + ["saveload"])
            o = {"do": k, "r": rng.randrange(1 << 20)}
            if k == "refuse":
                o["kind"] = rng.choice(RUN_KINDS)
            ops.append(o)
        plan["ops"] = ops + [{"do": rng.choice(["train", "spectrum"]), "r": 5}]
    return plan


# ------------------------------------------------------------------ the valid work, with or without the refused requests
def rng_state():
    return canon_hash([canon(torch.get_rng_state()), canon(np.random.get_state()[1]), np.random.get_state()[2], random.getstate()[1][-1], canon(list(random.getstate()[1][:20]))])


def attempt(what, fn, probes, hist):
    """fn has to raise and to leave the process alone"""
    before, seeds = O.process_state(), rng_state()
    try:
        fn()
    except Violation:
        raise
    except KeyboardInterrupt:
        raise
    except Exception:
        pass
    else:
        raise Violation("not-refused", "%s was accepted" % what)
    after = O.process_state()
    if after != before:
        raise Violation("trace-in-process", "%s was refused but left the process changed: %s" % (what, diff_keys(before, after)))
    if rng_state() != seeds:
        raise Violation("trace-in-generators", "%s was refused but moved the random generators" % what)
    probes["refused"] += 1
    hist.append("!" + what)


def grid_work(plan, refusals, W=None, probes=None, hist=None):
    f = c10.F()
    out = []

    class G(f.Grid):
        _places = 0

        def __setitem__(self, key, attr):
            if not getattr(self, "_busy", False):
                n = G._places
                G._places += 1
                for at, kind, seed in plan["early"] if refusals else []:
                    if at == n:
                        self._try(kind, seed)
            super().__setitem__(key, attr)

        def _try(self, kind, seed):
            object.__setattr__(self, "_busy", True)
            before = picture(self)
            try:
                attempt("%s (%d)" % (kind, seed), lambda: refuse_grid(self, kind, seed), probes, hist)
            finally:
                object.__setattr__(self, "_busy", False)
            after = picture(self)
            if after != before:
                raise Violation("trace-in-grid", "%s was refused but changed the grid: %s" % (kind, diff_keys(before, after)))

    G.__name__ = "Grid"
    g, dets, leaves = c10.build(plan["grid"], G)
    n = 0
    for o in plan["ops"]:
        k = o["do"]
        if k == "run":
            g.run(o["n"], progress_bar=False)
            n += o["n"]
        elif k == "reset":
            g.reset()
        elif k == "save" and not plan["grid"]["grad"] and all(d["named"] for d in plan["grid"]["detectors"]):
            g.save_simulation("c22")
            g.save_data()
        elif k == "refuse" and refusals:
            g._try(o["kind"], o["r"])
        elif k == "foreign" and refusals:
            c = mkcfg({"seed": o["r"] % 100})
            attempt("%s (%d)" % (o["kind"], o["r"]), lambda: refuse_run(c, o["kind"], o["r"], W), probes, hist)
        if hist is not None:
            hist.append(k)
    out.append(picture(g))
    out.append(c10.observe(g, dets, n, leaves, plan["grid"]["grad"]))
    return out


def picture(g):
    """what a grid shows of itself"""
    p = dict(E=canon(g.E + 0.0), H=canon(g.H + 0.0), eps=canon(g.inverse_permittivity + 0.0), mu=canon(g.inverse_permeability + 0.0), absorption=canon(g.absorption_factor + 0.0), steps=int(g.time_steps_passed))
    p["names"] = sorted(k for k in vars(g) if k not in ("_busy", "_places", "folder", "full_sim_name"))
    for k in ("sources", "detectors", "boundaries", "objects"):
        p[k] = [[type(c).__name__, c.name] for c in getattr(g, k)]
    p["readings"] = [[len(v) for _, v in sorted(d.detector_values().items())] if hasattr(d, "detector_values") else None for d in g.detectors]
    return p


def run_work(plan, refusals, W=None, probes=None, hist=None):
    n = nidn()
    c = mkcfg(plan["cfg"])
    out = []
    for o in plan["ops"]:
        k = o["do"]
        if k == "train":
            out.append(O.do_train(None, cfg=c))
        elif k == "spectrum":
            s = O.do_spectrum(None, o["r"], grad=o["r"] % 2 == 0, cfg=c)
            out.append(s)
        elif k == "eps":
            if c.get("model", None) is not None and "model" in c:
                torch.manual_seed(o["r"])
                e, m = n.model_to_eps_grid(c.model, c)
                out.append(canon(e))
        elif k == "layers":
            b = n.LayerBuilder(_lcfg())
            out.append(canon(b.build_circle_layer("titanium_oxide", "zinc_oxide")))
        elif k == "draw":
            torch.manual_seed(o["r"])
            np.random.seed(o["r"])
            random.seed(o["r"])
        elif k == "saveload":
            n.save_run(c, "c22_%d" % o["r"])
        elif k == "refuse" and refusals:
            before = canon({x: y for x, y in c.items() if x not in ("target_frequencies",)})
            had = canon(c.target_frequencies) if "target_frequencies" in c else None
            attempt("%s (%d)" % (o["kind"], o["r"]), lambda: refuse_run(c, o["kind"], o["r"], W), probes, hist)
            after = canon({x: y for x, y in c.items() if x not in ("target_frequencies",)})
            if before != after or (had is not None and canon(c.target_frequencies) != had):
                raise Violation("trace-in-cfg", "%s was refused but the configuration of the run changed: %s" % (o["kind"], diff_keys(before, after)))
            if had is None and "target_frequencies" in c:
                del c["target_frequencies"]
        if hist is not None and k != "refuse":
            hist.append(k)
    out.append([torch.rand(2).tolist(), np.random.rand(2).tolist()])
    out.append(canon({k: v for k, v in c.items()}))
    return out


def alone(plan):
    torch.manual_seed(1)
    np.random.seed(1)
    random.seed(1)
    with O.silence():
        return json.loads(json.dumps((grid_work if "grid" in plan else run_work)(plan, False)))


def run(plan, W):
    pristine = Pristine()
    probes = {"refused": 0}
    hist = []
    torch.manual_seed(1)
    np.random.seed(1)
    random.seed(1)
    with O.silence():
        got = (grid_work if "grid" in plan else run_work)(plan, True, W, probes, hist)
    got = json.loads(json.dumps(got))
    ref = pristine(alone, plan)
    if got != ref:
        bad = [i for i, (a, b) in enumerate(zip(got, ref)) if a != b]
        a, b = got[bad[0]], ref[bad[0]]
        raise Violation("trace-in-results", "the valid work gives other results with refused requests in between: item %d of %d, %s" % (bad[0], len(ref), diff_keys(a, b)))
    for _ in range(probes["refused"]):
        W.fire("refused_request")
    W.ev("hist", " ".join(hist), canon_hash(ref))
    return dict(nontrivial=probes["refused"] >= 1, probes=probes, steps=len(hist), sched=canon_hash(hist))
