"""Configuration builders, canonical digests and small reference models."""
import hashlib
import json
import math
import os

import numpy as np
import torch


def nidn():
    import sys

    return sys.modules["nidn"]


DEFAULTS = dict(
    name="sim",
    seed=7,
    type="regression",
    model_type="siren",
    n_neurons=6,
    hidden_layers=1,
    N_layers=1,
    N_freq=2,
    Nx=1,
    Ny=1,
    iterations=4,
    learning_rate=1e-3,
    TRCWA_NG=3,
    real_min_eps=1.0,
    real_max_eps=12.0,
    imag_min_eps=0.0,
    imag_max_eps=2.0,
    physical_wavelength_range=[1e-6, 4e-6],
    PER_LAYER_THICKNESS=[0.7],
)

FDTD_SMALL = dict(
    solver="FDTD",
    FDTD_niter=30,
    FDTD_pml_thickness=0.3,
    FDTD_free_space_distance=0.3,
    FDTD_source_position=[0.3, 0.1],
    PER_LAYER_THICKNESS=[0.3],
    physical_wavelength_range=[1e-6, 2e-6],
    real_min_eps=1.0,
    real_max_eps=4.0,
    imag_max_eps=1.0,
)


def mkcfg(spec, dynamic=False):
    """A complete, valid configuration from the defaults plus `spec`."""
    c = nidn().load_default_cfg()
    d = dict(DEFAULTS)
    if spec.get("solver") == "FDTD":
        d.update(FDTD_SMALL)
    d.update(spec)
    for k, v in d.items():
        c[k] = json.loads(json.dumps(v))
    nf = c.N_freq
    for key in ("target_reflectance_spectrum", "target_transmittance_spectrum"):
        if key not in spec:
            base = 0.25 if "refl" in key else 0.6
            c[key] = [base + 0.03 * (i % 3) for i in range(nf)]
    return c


def freqs(c):
    return nidn().compute_target_frequencies(
        c.physical_wavelength_range[0], c.physical_wavelength_range[1], c.N_freq, c.freq_distribution
    )


# ------------------------------------------------------------------ canonical form
def _h(b):
    return hashlib.sha256(b).hexdigest()[:20]


def canon(o, depth=0):
    """Value of an object, independent of identity and dict order."""
    if depth > 12:
        return "deep"
    if isinstance(o, torch.nn.Module):
        return ["module", type(o).__name__, canon(dict(o.state_dict()), depth + 1)]
    if isinstance(o, torch.Tensor):
        t = o.detach().cpu().contiguous()
        if t.is_conj():
            t = t.resolve_conj()
        return ["tensor", str(t.dtype), list(t.shape), _h(t.numpy().tobytes())]
    if isinstance(o, np.ndarray):
        return ["ndarray", str(o.dtype), list(o.shape), _h(np.ascontiguousarray(o).tobytes())]
    if isinstance(o, (bool, int, str)) or o is None:
        return o
    if isinstance(o, float):
        return ["f", o.hex() if math.isfinite(o) else repr(o)]
    if isinstance(o, np.generic):
        return canon(o.item(), depth)
    if isinstance(o, complex):
        return ["c", o.real.hex(), o.imag.hex()]
    if hasattr(o, "items") and hasattr(o, "keys"):
        return {str(k): canon(v, depth + 1) for k, v in sorted(o.items(), key=lambda kv: str(kv[0]))}
    if isinstance(o, (list, tuple)):
        return [canon(x, depth + 1) for x in o]
    if type(o).__module__.startswith("nidn"):
        return ["obj", type(o).__name__, canon(vars(o), depth + 1)]
    return ["opaque", type(o).__name__]


def canon_hash(o):
    return _h(json.dumps(canon(o), sort_keys=True).encode())


def diff_keys(a, b):
    """Keys on which two canonical dicts differ."""
    if not (isinstance(a, dict) and isinstance(b, dict)):
        return ["values"]
    ks = sorted(set(a) | set(b))
    return [k for k in ks if a.get(k, "<absent>") != b.get(k, "<absent>")]


def state_of(model):
    return {k: v.detach().clone() for k, v in model.state_dict().items()}


def same_state(a, b):
    if set(a) != set(b):
        return False
    for k in a:
        x, y = a[k], b[k]
        if x.shape != y.shape or x.dtype != y.dtype:
            return False
        if not torch.equal(torch.nan_to_num(torch.view_as_real(x) if x.is_complex() else x, nan=1.234e111),
                           torch.nan_to_num(torch.view_as_real(y) if y.is_complex() else y, nan=1.234e111)):
            return False
    return True


def finite_state(a):
    return all(bool(torch.isfinite(torch.view_as_real(v) if v.is_complex() else v).all()) for v in a.values())


def fl(x):
    return float(x.detach().item()) if isinstance(x, torch.Tensor) else float(x)


# ------------------------------------------------------------------ reference loss
def ref_loss(R, T, cfg, material_ids=None):
    """Executable specification of the training loss.

    Returns (total loss tensor, spectrum loss, L1 error, renormalised?, ambiguous?)"""
    renorm = False
    amb = False
    acc = 0
    l1 = 0
    n = len(R)
    for r, t, tr, tt in zip(R, T, cfg.target_reflectance_spectrum, cfg.target_transmittance_spectrum):
        s = r + t
        sv = fl(s)
        if sv > 1.0:
            renorm = True
        if abs(sv - 1.0) < 1e-9:
            amb = True
        if sv > 1.0:
            r, t = r / s, t / s
        acc = acc + torch.abs(r - tr) ** cfg.L + torch.abs(t - tt) ** cfg.L
        if cfg.absorption_loss:
            acc = acc + torch.abs((1 - t - r) - (1 - tt - tr)) ** cfg.L
        l1 = l1 + torch.abs(r - tr) + torch.abs(t - tt)
    spec = acc / ((3 if cfg.absorption_loss else 2) * n)
    l1 = l1 / (2 * n)
    total = spec
    if cfg.type == "classification" and cfg.use_regularization_loss:
        p = material_ids
        reg = torch.minimum((1 - p) ** cfg.L, p**cfg.L).mean()
        total = spec + cfg.reg_loss_weight * reg
    return total, spec, l1, renorm, amb


def close(a, b, rel=1e-9, ab=1e-12):
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= ab + rel * max(abs(a), abs(b))


def tree(root):
    """relative path -> content hash of every file below root (real I/O)."""
    from .seams import REAL

    out = {}
    for d, _, fs in _walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with REAL["open"](p, "rb") as fh:
                out[os.path.relpath(p, root)] = _h(fh.read())
    return out


def _walk(root):
    from .seams import REAL

    if not os.path.isdir(root):
        return
    dirs, files = [], []
    for e in sorted(REAL["scandir"](root), key=lambda e: e.name):
        (dirs if e.is_dir(follow_symlinks=False) else files).append(e.name)
    yield root, dirs, files
    for d in dirs:
        yield from _walk(os.path.join(root, d))
