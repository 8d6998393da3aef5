"""C13: every permittivity the library derives from a model is usable, whatever noise is drawn."""
import json
import os
import random
import sys
from importlib import import_module

import torch

from ..core import Violation, numeric_abort
from ..seams import REAL as RAW
from ..trace import LineInjector
from ..train import fill
from ..util import nidn, mkcfg, canon, canon_hash, freqs, state_of, same_state, finite_state

QUICK = dict(runs=1800, budget=45)
THOROUGH = dict(runs=100000, budget=1500)
RUN_LIMIT = 120
RULE = (
    "a run evaluates one model in a seeded history of weight jumps, training segments, save/load, changes of range, noise and zero avoidance; "
    "the simulator draws the noise (ordinary, tail, constant, zero, alternating) and may interrupt an evaluation; every permittivity grid, "
    "also those handed to the solver during training, is checked against the configured ranges and material tables; "
    "non-trivial if noise was drawn or zero avoidance / clipping acted; distinct by event-log digest"
)
REAL = ["networks (siren, nerf, voxel)", "model evaluation", "training", "TRCWA", "material data base", "save_run/load_run"]
STUB = ["noise generator (torch.randn_like/randn/normal replaced by scripted draws)"]
SCHED_MEASURE = "distinct sequences of (operation, noise kind, fault)"
ASSUMPTIONS = ["network outputs are finite; a drawn noise value is at most 8 standard deviations (double precision generators cannot exceed ~8.6); noise scale at most 3"]
CUT = 1e-2


def gen(rng, tier, idx):
    mt = rng.choice(["siren", "siren", "nerf", "voxel", "voxel"])
    spec = {
        "model_type": mt,
        "type": "classification" if mt != "voxel" and rng.random() < 0.35 else "regression",
        "N_freq": rng.choice([1, 2, 3]),
        "N_layers": rng.choice([1, 2, 3]),
        "seed": rng.randrange(1, 9999),
        "freq_distribution": rng.choice(["linear", "log"]),
        "hidden_layers": rng.choice([1, 2]),
    }
    if spec["type"] == "classification" and rng.random() < 0.7:
        spec["physical_wavelength_range"] = rng.choice([[9e-6, 2.5e-5], [8e-6, 1.2e-5], [1.1e-5, 1.6e-5], [4e-6, 3e-5]])
    if rng.random() < 0.5:
        spec["Nx"], spec["Ny"] = rng.choice([(2, 2), (4, 2), (4, 4), (3, 3) if mt != "voxel" else (2, 4)])
        if mt != "voxel" and spec["Nx"] % 2 == 0 and spec["Ny"] % 2 == 0:
            spec["eps_oversampling"] = rng.choice([1, 2])
    if rng.random() < 0.3:
        spec["PER_LAYER_THICKNESS"] = [round(rng.uniform(0.2, 1.2), 3) for _ in range(spec["N_layers"])]
    ops = []
    if rng.random() < 0.5:
        ops.append({"op": "noise", "r": 0, "on": True, "scale": rng.choice([0.001, 0.1, 1.0, 3.0, 40.0]), "kind": rng.choice(["normal", "tail+", "tail-", "mixed", "half", "const"])})
    for _ in range(rng.randrange(2, 7 if tier == "quick" else 14)):
        k = rng.choice(["eval"] * 6 + ["weights"] * 3 + ["range"] * 3 + ["noise"] * 4 + ["zero"] * 2 + ["train", "train", "grad", "grad", "reload", "abort"] + ["mix"] * 4 * (spec["type"] == "classification"))
        o = {"op": k, "r": rng.randrange(1 << 30)}
        if k == "weights":
            o["scale"] = rng.choice([0.01, 0.3, 3.0, 30.0])
        elif k == "range":
            o["real"] = rng.choice([[-100.0, 100.0], [1.0, 12.0], [-0.02, 0.02], [0.0, 0.005], [-0.005, 0.0], [-5.0, 0.0], [0.0, 3.0], [2.5, 2.5], [0.01, 20.0]])
            o["imag"] = rng.choice([[0.0, 3.0], [0.0, 0.0], [-1.0, 1.0], [0.5, 2.0], [-3.0, -1.0]])
        elif k == "noise":
            o["on"] = rng.random() < 0.75
            o["scale"] = rng.choice([0.001, 0.01, 0.1, 0.5, 1.0, 3.0, 40.0])
            o["kind"] = rng.choice(["normal", "normal", "tail+", "tail-", "mixed", "zero", "half", "const"])
        elif k == "zero":
            o["on"] = rng.random() < 0.7
        elif k == "train":
            o["n"] = rng.randrange(1, 4)
        elif k == "abort":
            o["frac"] = rng.random()
        ops.append(o)
        if k == "mix":
            ops.append({"op": rng.choice(["eval", "eval", "train"]), "r": rng.randrange(1 << 30), "n": 1})
    ops.append({"op": "eval", "r": rng.randrange(1 << 30)})
    return {"spec": spec, "ops": ops}


# ------------------------------------------------------------------ noise seam
class Noise:
    def __init__(self, W):
        self.W, self.kind, self.n = W, "normal", 0
        self.g = random.Random(1)
        self.real = {k: getattr(torch, k) for k in ("randn_like", "randn", "normal")}

    def draw(self, shape, dtype):
        self.n += 1
        self.W.fire("noise_" + self.kind)
        gen = torch.Generator().manual_seed(self.g.randrange(1 << 40))
        x = self.real["randn"](shape, generator=gen, dtype=torch.float64)
        k = self.kind
        if k == "tail+":
            x = 4 + x.abs().clip(0, 4)
        elif k == "tail-":
            x = -4 - x.abs().clip(0, 4)
        elif k == "mixed":
            x = torch.where(x > 0, 8.0, -8.0)
        elif k == "zero":
            x = x * 0
        elif k == "half":
            x = x * 0 + 0.5
        elif k == "const":
            x = x * 0 + self.g.uniform(-8, 8)
        return x.to(dtype)

    def __enter__(self):
        def randn_like(t, *a, **k):
            out = self.draw(t.shape, torch.float64).to(k.get("dtype") or t.dtype)
            return out.requires_grad_(True) if k.get("requires_grad") else out

        def randn(*s, **k):
            if len(s) == 1 and not isinstance(s[0], int):
                s = tuple(s[0])
            if k.get("generator") is not None:
                return self.real["randn"](*s, **k)
            return self.draw(s, torch.float64).to(k.get("dtype") or torch.get_default_dtype())

        torch.randn_like, torch.randn = randn_like, randn
        return self

    def __exit__(self, *a):
        for k, v in self.real.items():
            setattr(torch, k, v)
        return False


# ------------------------------------------------------------------ oracle
def check_grid(c, eps, what, probes):
    want = [c.Nx, c.Ny, c.N_layers, c.N_freq]
    if list(eps.shape) != want:
        raise Violation("shape", "%s: grid shape %s instead of %s" % (what, list(eps.shape), want))
    if not torch.is_complex(eps):
        raise Violation("type", "%s: permittivity is not complex" % what)
    e = eps.detach()
    if not bool(torch.isfinite(torch.view_as_real(e.resolve_conj())).all()):
        raise Violation("not-finite", "%s: permittivity contains NaN/inf (noise scale %r)" % (what, c.noise_scale))
    re, im = e.real.double(), e.imag.double()
    if c.avoid_zero_eps:
        m = float(re.abs().min())
        if m < CUT * (1 - 1e-5):
            raise Violation("zero-eps", "%s: zero avoidance is on, but a real part is %.3g from zero (noise %s, model %s)" % (what, m, c.add_noise, c.model_type))
    if c.type == "regression":
        lo, hi = c.real_min_eps, c.real_max_eps
        tol = 1e-5 * max(1.0, abs(lo), abs(hi))
        bad = (re < lo - tol) | (re > hi + tol)
        if c.avoid_zero_eps:
            bad &= (re.abs() - CUT).abs() > 1e-6
        if bool(bad.any()):
            raise Violation("real-range", "%s: real part %.6g outside [%g, %g]" % (what, float(re[bad][0]), lo, hi))
        lo, hi = c.imag_min_eps, c.imag_max_eps
        tol = 1e-5 * max(1.0, abs(lo), abs(hi))
        bad = (im < lo - tol) | (im > hi + tol)
        if bool(bad.any()):
            raise Violation("imag-range", "%s: imaginary part %.6g outside [%g, %g]" % (what, float(im[bad][0]), lo, hi))
        if c.add_noise:
            probes["noisy_grids"] = probes.get("noisy_grids", 0) + 1
        if bool((re.abs() - CUT).abs().min() < 1e-6):
            probes["zero_avoidance_acted"] = probes.get("zero_avoidance_acted", 0) + 1
        if bool((re - c.real_min_eps).abs().min() < 1e-9) or bool((re - c.real_max_eps).abs().min() < 1e-9):
            probes["clipping_acted"] = probes.get("clipping_acted", 0) + 1


def check_ids(c, eps, mid, what, probes):
    if c.type == "regression":
        if mid is not None:
            raise Violation("ids", "%s: material weights for a regression model" % what)
        return
    mats = nidn().MaterialCollection(c.target_frequencies)
    want = [c.Nx, c.Ny, c.N_layers, mats.N_materials]
    if list(mid.shape) != want:
        raise Violation("ids", "%s: weights have shape %s instead of %s" % (what, list(mid.shape), want))
    w = mid.detach().double()
    if not bool(torch.isfinite(w).all()) or float(w.min()) < 0 or float((w.sum(-1) - 1).abs().max()) > 1e-6:
        raise Violation("ids", "%s: material weights are not a distribution (min %g, sums %g..%g)" % (what, float(w.min()), float(w.sum(-1).min()), float(w.sum(-1).max())))
    ref = (w.to(torch.complex128).unsqueeze(-1) * mats.epsilon_matrix.to(torch.complex128)).sum(-2)
    got = eps.detach().to(torch.complex128)
    d = (got - ref).abs()
    if c.avoid_zero_eps:
        d = torch.where(ref.real.abs() < CUT * 1.001, (got.imag - ref.imag).abs(), d)
    if bool((d > 1e-5 * (1 + ref.abs())).any()):
        raise Violation("mixture", "%s: permittivity is not the mixture of the tabulated materials" % what)
    probes["noisy_material_grids" if c.add_noise else "material_grids"] = probes.get("noisy_material_grids" if c.add_noise else "material_grids", 0) + 1


def traced(tr, c):
    sys.settrace(tr)
    try:
        nidn().model_to_eps_grid(c.model, c)
    finally:
        sys.settrace(None)


def model_out_finite(c):
    return finite_state(state_of(c.model))


def evaluate(c, what, probes):
    n = nidn()
    before, key = state_of(c.model), cfg_value(c)
    eps, mid = n.model_to_eps_grid(c.model, c)
    if not same_state(before, state_of(c.model)):
        raise Violation("model-changed", "%s: evaluating the model changed it" % what)
    if cfg_value(c) != key:
        raise Violation("cfg-changed", "%s: evaluating the model changed the configuration" % what)
    check_grid(c, eps, what, probes)
    check_ids(c, eps, mid, what, probes)
    if not c.add_noise:
        e2, _ = n.model_to_eps_grid(c.model, c)
        if canon(e2) != canon(eps):
            raise Violation("not-repeatable", "%s: two noise-free evaluations differ" % what)
        o = c.eps_oversampling
        if o > 1 and c.model_type != "voxel":
            b = eps[::o, ::o].repeat_interleave(o, 0).repeat_interleave(o, 1)
            if canon(b.detach()) != canon(eps.detach()):
                raise Violation("oversampling", "%s: cells of one oversampled block differ" % what)
    return eps, mid


def cfg_value(c):
    return canon_hash({str(k): v for k, v in c.items() if k not in ("model", "material_collection")})


def run(plan, W):
    n = nidn()
    probes = {}
    sched = []
    c = mkcfg(dict(plan["spec"], iterations=1))
    seg = mkcfg(dict(plan["spec"], iterations=1, Nx=1, Ny=1, eps_oversampling=1)) if plan["spec"]["model_type"] != "voxel" else None
    # a library model, built by the library
    if seg is not None:
        n.run_training(seg)
        c.model = seg.model
        for k in ("material_collection", "N_materials", "out_features"):
            if k in seg:
                c[k] = seg[k]
    else:
        try:
            n.run_training(c)
        except RuntimeError as e:
            if not numeric_abort(e):
                raise
    c.target_frequencies = freqs(c)
    nz = Noise(W)
    rt = import_module("nidn.training.run_training")
    with nz:
        for i, o in enumerate(plan["ops"]):
            k = o["op"]
            nz.g = random.Random(o["r"])
            what = "op %d (%s)" % (i, k)
            W.ev(what)
            sched.append((k, nz.kind if c.add_noise else None, c.avoid_zero_eps))
            if k == "weights":
                fill(c.model, o["r"], o["scale"], rel=c.model_type == "voxel")
            elif k == "mix":
                mix(c, o["r"], probes)
            elif k == "range":
                c.real_min_eps, c.real_max_eps = o["real"]
                c.imag_min_eps, c.imag_max_eps = o["imag"]
            elif k == "noise":
                c.add_noise, c.noise_scale, nz.kind = o["on"], o["scale"], o["kind"]
            elif k == "zero":
                c.avoid_zero_eps = o["on"]
            elif k == "eval":
                e, _ = evaluate(c, what, probes)
                W.ev("grid", canon_hash(e.detach()))
            elif k == "reload":
                d = os.path.join(W.root, "results", "m%d" % i)
                n.save_run(c, "m%d" % i)
                fs = RAW["listdir"](d)
                c2 = n.load_run(os.path.join(d, fs[0]))
                if not same_state(state_of(c.model), state_of(c2.model)):
                    raise Violation("reload", "%s: the model read back differs" % what)
                c = c2
                evaluate(c, what, probes)
            elif k == "abort":
                before = state_of(c.model)
                cnt = LineInjector()
                traced(cnt, c)
                nz.g = random.Random(o["r"])
                try:
                    traced(LineInjector(1 + int(o["frac"] * cnt.n), KeyboardInterrupt("simulated ^C")), c)
                except KeyboardInterrupt:
                    W.fire("evaluation_interrupted")
                if not same_state(before, state_of(c.model)):
                    raise Violation("model-changed", "%s: an interrupted evaluation changed the model" % what)
                evaluate(c, what, probes)
            elif k == "grad":
                eps, mid = evaluate(c, what, probes)
                for p in c.model.parameters():
                    p.grad = None
                g = torch.Generator().manual_seed(o["r"])
                wgt = torch.rand(eps.shape, generator=g, dtype=torch.float64)
                (eps.real * wgt + eps.imag * (1 - wgt)).sum().backward()
                for name, p in c.model.named_parameters():
                    if p.grad is None:
                        raise Violation("gradient", "%s: no gradient reaches %s (noise %s)" % (what, name, c.add_noise))
                    if not bool(torch.isfinite(torch.view_as_real(p.grad) if p.grad.is_complex() else p.grad).all()):
                        raise Violation("gradient", "%s: gradient of %s is not finite (noise %s)" % (what, name, c.add_noise))
                    p.grad = None
                probes["gradients"] = probes.get("gradients", 0) + 1
            elif k == "train":
                train(c, o, what, probes, rt)
                if not model_out_finite(c):
                    raise Violation("model-nan", "%s: training left NaN in the model" % what)
                evaluate(c, what, probes)
    nontriv = any(probes.get(x) for x in ("noisy_grids", "noisy_material_grids", "zero_avoidance_acted", "clipping_acted"))
    return dict(nontrivial=nontriv, probes=probes, steps=len(plan["ops"]), sched=str(sched))


def mix(c, r, probes):
    """a network that mixes two materials so that the permittivity (almost) vanishes at a frequency"""
    m = c.material_collection
    g = random.Random(r)
    re = m.epsilon_matrix.real.double()
    cand = [(i, j, f) for f in range(c.N_freq) for i in range(m.N_materials) for j in range(m.N_materials) if re[i, f] > 0 > re[j, f]]
    lin = [x for x in c.model.modules() if isinstance(x, torch.nn.Linear) and x.out_features == m.N_materials]
    if not cand or not lin:
        return
    i, j, f = g.choice(cand)
    t = g.choice([0.0, 1e-4, -1e-4, 0.004, -0.004, 0.009, -0.009])
    ratio = -(float(re[i, f]) - t) / (float(re[j, f]) - t)  # weight of j for one of i
    if ratio <= 0:
        return
    big, small, x = (j, i, 1 / ratio) if ratio > 1 else (i, j, ratio)
    p = torch.full((m.N_materials,), 1e-9, dtype=torch.float64)
    p[big], p[small] = 0.97, 0.97 + torch.log(torch.tensor(x)).item() / 16
    if float(p[small]) <= 0.05:
        return
    with torch.no_grad():
        lin[-1].weight.mul_(0)
        lin[-1].bias.copy_(torch.log(p / (1 - p)).to(lin[-1].bias.dtype))
    probes["vanishing_mixtures"] = probes.get("vanishing_mixtures", 0) + 1


def train(c, o, what, probes, rt):
    """train; every grid handed to the solver is checked as well (if the solver can be observed)"""
    n = nidn()
    c.iterations = o["n"]
    real = getattr(rt, "compute_spectrum", None)
    seen = []

    def spy(eps, cfg, *a, **k):
        if model_out_finite(c):
            check_grid(c, eps, what + " solver input", probes)
        seen.append(1)
        return real(eps, cfg, *a, **k)

    if real is not None:
        rt.compute_spectrum = spy
    nx, ny, ov = c.Nx, c.Ny, c.eps_oversampling
    if c.model_type != "voxel":
        c.Nx = c.Ny = c.eps_oversampling = 1
    try:
        n.run_training(c)
    except RuntimeError as e:
        if not numeric_abort(e):
            raise
    finally:
        if real is not None:
            rt.compute_spectrum = real
        c.Nx, c.Ny, c.eps_oversampling = nx, ny, ov
    probes["trained_with_noise" if c.add_noise else "trained"] = probes.get("trained_with_noise" if c.add_noise else "trained", 0) + 1
