"""Operations of the library, driven through its public API, for histories and observers."""
import contextlib
import io
import json
import os
import random
import signal
import sys

import numpy as np
import torch

from .util import nidn, mkcfg, freqs, canon, canon_hash, state_of, fl


def tame_cfg(rng, solver=None, small=True):
    """A random, numerically harmless configuration (as a dict)."""
    c = {}
    c["model_type"] = rng.choice(["siren", "siren", "nerf", "voxel"])
    c["type"] = "regression"
    if c["model_type"] != "voxel" and rng.random() < 0.25:
        c["type"] = "classification"
        c["use_regularization_loss"] = rng.random() < 0.5
    c["N_freq"] = rng.choice([1, 2, 2, 3])
    c["N_layers"] = rng.choice([1, 1, 2, 3])
    c["seed"] = rng.randrange(1, 1000)
    c["L"] = rng.choice([1.0, 2.0])
    c["absorption_loss"] = rng.random() < 0.3
    c["add_noise"] = rng.random() < 0.3
    c["noise_scale"] = 0.05
    c["freq_distribution"] = rng.choice(["linear", "log"])
    c["learning_rate"] = rng.choice([1e-3, 1e-2])
    c["iterations"] = rng.randrange(1, 4)
    if rng.random() < 0.4:
        c["PER_LAYER_THICKNESS"] = [round(rng.uniform(0.2, 1.2), 3) for _ in range(c["N_layers"])]
    if rng.random() < 0.15 and c["model_type"] != "voxel":
        c["Nx"] = c["Ny"] = 2
        c["eps_oversampling"] = rng.choice([1, 2])
    if solver == "FDTD":
        c["solver"] = "FDTD"
        c.pop("Nx", None), c.pop("Ny", None), c.pop("eps_oversampling", None)
        c["type"] = "regression"
        c["N_freq"] = rng.choice([1, 1, 2])
        c["PER_LAYER_THICKNESS"] = [0.3] * rng.choice([1, c["N_layers"]])
        c["FDTD_niter"] = rng.choice([26, 34])
        c["iterations"] = 1
        c["real_max_eps"] = 4.0
        c["FDTD_source_type"] = rng.choice(["line", "line", "point"])
        c["FDTD_pulse_type"] = rng.choice(["continuous", "continuous", "hanning"])
        if rng.random() < 0.2:
            c["FDTD_min_gridpoints_per_unit_magnitude"] = rng.choice([11, 14])
    c = vary(rng, c)
    if solver == "FDTD" and rng.random() < 0.12:
        # long enough for the removal of the transient
        c["FDTD_niter"] = rng.choice([150, 160])
        c["N_layers"] = 1
        set_nfreq(c, 1)
        c["PER_LAYER_THICKNESS"] = [0.3]
        c["physical_wavelength_range"] = list(rng.choice([[1e-6, 1.2e-6], [1.1e-6, 1.2e-6]]))
        c.pop("FDTD_min_gridpoints_per_unit_magnitude", None)
    return c


RANGES = [[1e-6, 4e-6], [1e-6, 4e-6], [2e-6, 9e-6], [5e-6, 3e-5], [1.5e-6, 4e-6], [1e-6, 2.5e-6]]
FDTD_RANGES = [[1e-6, 2e-6], [1e-6, 2e-6], [1e-6, 1.6e-6], [1.2e-6, 2e-6]]


LATTICES = [[[0.1, 0.0], [0.0, 0.1]], [[0.2, 0.0], [0.0, 0.15]], [[0.1, 0.0], [0.0, 0.2]], [[0.4, 0.0], [0.0, 0.1]], [[0.2, 0.05], [0.0, 0.2]]]


def patterned(rng, c):
    """A grid fine enough for several diffraction orders; the lattice then matters."""
    if c.get("solver") != "FDTD" and c["model_type"] != "voxel":
        c["Nx"] = c["Ny"] = rng.choice([12, 16])
        c["eps_oversampling"] = 1
        c["TRCWA_NG"] = rng.choice([5, 7])
        c["TRCWA_L_grid"] = rng.choice(LATTICES)
        c["iterations"] = 1
        set_nfreq(c, rng.choice([1, 2]))
        c["N_layers"] = 1
        c.pop("PER_LAYER_THICKNESS", None)
    return c


def vary(rng, c):
    """Spread the settings that are not worth a line of their own."""
    fd = c.get("solver") == "FDTD"
    if rng.random() < 0.6:
        c["physical_wavelength_range"] = list(rng.choice(FDTD_RANGES if fd else RANGES))
    if rng.random() < 0.3:
        c["TRCWA_NG"] = rng.choice([5, 7])
    if rng.random() < 0.2:
        c["TRCWA_L_grid"] = rng.choice(LATTICES)
    if rng.random() < 0.2:
        c["TRCWA_TOP_LAYER_EPS"] = 2.25
    if rng.random() < 0.2:
        c["TRCWA_BOTTOM_LAYER_EPS"] = rng.choice([2.25, 4.0])
    if rng.random() < 0.3:
        c["n_neurons"], c["hidden_layers"] = rng.choice([(6, 2), (8, 1), (5, 2)])
    if rng.random() < 0.2:
        c["siren_omega"] = 5.0
    if rng.random() < 0.3 and not fd:
        c["real_max_eps"] = rng.choice([8.0, 15.0])
    if rng.random() < 0.2:
        c["reg_loss_weight"] = 0.3
    if rng.random() < 0.15:
        unreachable(rng, c)
    return coarse(c)


def unreachable(rng, c):
    """Targets may ask for what no passive structure does (R+T above one)."""
    n = c.get("N_freq", 2)
    c["target_reflectance_spectrum"] = [rng.choice([0.3, 0.75, 1.0]) for _ in range(n)]
    c["target_transmittance_spectrum"] = [rng.choice([0.3, 0.5, 1.0]) for _ in range(n)]


def set_nfreq(c, n):
    c["N_freq"] = n
    for k in ("target_reflectance_spectrum", "target_transmittance_spectrum"):
        if k in c:
            c[k] = [c[k][i % len(c[k])] for i in range(n)]


def coarse(c):
    """TRCWA needs more grid cells than the patterned layers here have for higher truncation orders."""
    if 1 < max(c.get("Nx", 1), c.get("Ny", 1)) < 12:
        c.pop("TRCWA_NG", None)
        c.pop("TRCWA_L_grid", None)
    return c


def twin(rng, spec):
    """A configuration that differs from the given one in one or two settings only."""
    c = json.loads(json.dumps(spec))
    fd = c.get("solver") == "FDTD"
    long = c.get("FDTD_niter", 0) > 100
    for _ in range(rng.choice([1, 1, 1, 2])):
        k = rng.choice(["range", "range", "dist", "seed", "thick", "ng", "lgrid", "top", "bottom", "model", "real", "imag", "layers", "noise", "L", "target"])
        if fd and rng.random() < 0.5:
            k = rng.choice(["gridpoints", "niter", "pulse", "source", "pml", "space", "detector"])
            if long and k not in ("pulse", "source"):
                c["FDTD_niter"] = rng.choice([150, 160, 170])
                continue
            if k == "gridpoints":
                c["FDTD_min_gridpoints_per_unit_magnitude"] = rng.choice([10, 11, 14])
            elif k == "niter":
                c["FDTD_niter"] = rng.choice([26, 30, 34, 40])
            elif k == "pulse":
                c["FDTD_pulse_type"] = rng.choice(["continuous", "hanning", "ricker"])
            elif k == "source":
                c["FDTD_source_type"] = rng.choice(["line", "point"])
            elif k == "pml":
                c["FDTD_pml_thickness"] = rng.choice([0.3, 0.4])
                c["FDTD_source_position"] = [0.5, 0.1]
            elif k == "space":
                c["FDTD_free_space_distance"] = rng.choice([0.4, 0.5])
            elif k == "detector":
                c["FDTD_gridpoints_from_material_to_detector"] = rng.choice([1, 2])
            continue
        if c.get("Nx", 1) >= 12 and rng.random() < 0.4:
            k = "lgrid"
        if long and k in ("range", "layers"):
            c["physical_wavelength_range"] = list(rng.choice([[1e-6, 1.2e-6], [1.1e-6, 1.2e-6], [1e-6, 1.15e-6]]))
            continue
        if k == "range":
            c["physical_wavelength_range"] = list(rng.choice(FDTD_RANGES if fd else RANGES))
        elif k == "dist":
            c["freq_distribution"] = "log" if c.get("freq_distribution", "linear") == "linear" else "linear"
        elif k == "seed":
            c["seed"] = rng.randrange(1, 1000)
        elif k == "thick" and not fd:
            c["PER_LAYER_THICKNESS"] = [round(rng.uniform(0.2, 1.2), 3) for _ in range(rng.choice([1, c.get("N_layers", 1)]))]
        elif k == "ng":
            c["TRCWA_NG"] = rng.choice([3, 5, 7])
        elif k == "lgrid":
            c["TRCWA_L_grid"] = rng.choice([x for x in LATTICES if x != c.get("TRCWA_L_grid", LATTICES[0])])
        elif k == "top":
            c["TRCWA_TOP_LAYER_EPS"] = rng.choice([1.0, 2.25])
        elif k == "bottom":
            c["TRCWA_BOTTOM_LAYER_EPS"] = rng.choice([1.0, 2.25, 4.0])
        elif k == "model":
            c["model_type"] = rng.choice(["siren", "nerf"]) if c.get("model_type") != "voxel" else "voxel"
            c["n_neurons"] = rng.choice([5, 6, 8])
        elif k == "real" and not fd:
            c["real_max_eps"] = rng.choice([8.0, 12.0, 15.0])
        elif k == "imag":
            c["imag_max_eps"] = rng.choice([0.5, 1.0, 2.0])
        elif k == "layers" and len(c.get("PER_LAYER_THICKNESS", [1])) == 1:
            c["N_layers"] = rng.choice([1, 2, 3])
        elif k == "noise":
            c["add_noise"] = not c.get("add_noise", False)
        elif k == "L":
            c["L"] = rng.choice([1.0, 2.0])
        elif k == "target" and not fd:
            c["target_reflectance_spectrum"] = [round(rng.random() * 0.5, 2) for _ in range(c.get("N_freq", 2))]
            if rng.random() < 0.3:
                unreachable(rng, c)
    return coarse(c)


def some_eps(c, seed, lo=1.5, hi=9.0):
    g = torch.Generator().manual_seed(int(seed))
    shape = (c.Nx, c.Ny, c.N_layers, c.N_freq)
    re = lo + (hi - lo) * torch.rand(shape, generator=g, dtype=torch.float64)
    im = 0.5 * torch.rand(shape, generator=g, dtype=torch.float64)
    return torch.complex(re, im)


def build_model(spec, seed=11):
    """A library model for a configuration, without training it (zero iterations)."""
    c = mkcfg(dict(spec, iterations=1))
    c.seed = seed
    return c


# ------------------------------------------------------------------ results as values
def do_train(spec, cfg=None):
    c = cfg if cfg is not None else mkcfg(spec)
    nidn().run_training(c)
    return dict(
        state=canon(state_of(c.model)),
        best=canon(dict(c.best_model_state_dict)),
        results=canon(dict(c.results)),
        freqs=canon(c.target_frequencies),
        mats=canon(list(c.material_collection.material_names)) if c.type == "classification" else None,
    )


def do_spectrum(spec, seed, grad=False, cfg=None):
    c = cfg if cfg is not None else mkcfg(spec)
    c.target_frequencies = freqs(c)
    hi = 4.0 if c.solver == "FDTD" else 9.0
    eps = some_eps(c, seed, 1.5, hi)
    if grad:
        eps = eps.clone().requires_grad_(True)
    R, T = nidn().compute_spectrum(eps, c)
    out = dict(R=[canon(x) for x in R], T=[canon(x) for x in T])
    if grad:
        s = sum(r + 0.5 * t for r, t in zip(R, T))
        s.backward()
        out["g"] = canon(eps.grad)
    return out


def do_materials(fr, skip=None):
    m = nidn().MaterialCollection(np.array(fr), to_skip=skip)
    return dict(names=list(m.material_names), eps=canon(m.epsilon_matrix), n=m.N_materials)


def do_eps(spec, seed, cfg=None):
    """permittivity grid of a fresh library model (seeded)"""
    c = cfg if cfg is not None else mkcfg(dict(spec, iterations=1))
    c.target_frequencies = freqs(c)
    nidn().fix_random_seeds(int(seed))
    if c.type == "classification":
        c.material_collection = nidn().MaterialCollection(c.target_frequencies)
        c.N_materials = c.material_collection.N_materials
        c.out_features = c.N_materials
    else:
        c.out_features = 2
    from importlib import import_module

    m = import_module("nidn.training.model.init_network").init_network(c)
    eps, mid = nidn().model_to_eps_grid(m, c)
    return dict(eps=canon(eps), mid=canon(mid) if mid is not None else None)


def do_layers(fr, mat1, mat2, n):
    c = mkcfg(dict(Nx=n, Ny=n, N_freq=len(fr)))
    c.target_frequencies = np.array(fr)
    b = nidn().LayerBuilder(c)
    return dict(u=canon(b.build_uniform_layer(mat1)), s=canon(b.build_squared_layer(mat1, mat2)), c=canon(b.build_circle_layer(mat1, mat2)))


def scramble(seed):
    """Put every global random generator in an arbitrary state."""
    r = random.Random(seed)
    torch.manual_seed(r.randrange(1 << 30))
    np.random.seed(r.randrange(1 << 30))
    random.seed(r.randrange(1 << 30))
    for _ in range(r.randrange(5)):
        torch.rand(3)
        np.random.rand(2)


def process_state():
    import warnings

    return dict(
        cwd=os.getcwd(),
        dtype=str(torch.get_default_dtype()),
        grad=torch.is_grad_enabled(),
        err=str(sorted(np.geterr().items())),
        threads=torch.get_num_threads(),
        det=torch.are_deterministic_algorithms_enabled(),
        env=canon_hash({k: v for k, v in os.environ.items() if not k.startswith("_")}),
        anomaly=torch.is_anomaly_enabled(),
        inference=torch.is_inference_mode_enabled(),
        rc=_rc(),
        print=str(sorted(np.get_printoptions().items(), key=str)) + str(torch._tensor_str.PRINT_OPTS),
        path=canon_hash([p for p in sys.path]),
        rec=sys.getrecursionlimit(),
        sig=str([signal.getsignal(x) for x in (signal.SIGINT, signal.SIGTERM)]),
        device=str(torch.get_default_device()),
    )


def _rc():
    m = sys.modules.get("matplotlib")
    return canon_hash({k: str(v) for k, v in m.rcParams.items() if not k.startswith("backend")}) if m else None


@contextlib.contextmanager
def silence():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield
