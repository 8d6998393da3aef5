"""Training simulation: the real training loop and solvers, with a scripted world.

The model handed to the training loop is a real network of the library, built by
the library; torch module hooks (a public seam) let the simulator decide, for each
evaluation, whether the optimiser "went wild" (parameters jump), the network output
or its gradient becomes NaN, the material shows gain (R+T>1), or the user hits ^C."""
import copy
import math

import torch

from .core import Violation, BudgetExceeded
from .util import (
    nidn,
    mkcfg,
    freqs,
    state_of,
    same_state,
    finite_state,
    ref_loss,
    fl,
    close,
    canon_hash,
)
from .ops import vary


def fill(model, seed, scale, rel=True):
    g = torch.Generator().manual_seed(int(seed))
    with torch.no_grad():
        for p in model.parameters():
            d = torch.randn(p.shape, generator=g, dtype=torch.float64) * scale
            if p.is_complex():
                d2 = torch.randn(p.shape, generator=g, dtype=torch.float64) * scale
                d = torch.complex(d, d2)
            if rel:
                p.add_(d.to(p.dtype))
            else:
                p.copy_(d.to(p.dtype))


class TrainSim:
    def __init__(self, plan, W):
        self.plan, self.W = plan, W
        self.cfg = mkcfg(plan["cfg"])
        seedcfg = mkcfg({**plan["cfg"], "iterations": 1, "solver": "TRCWA", "add_noise": False})
        if plan["cfg"].get("solver") == "FDTD":
            seedcfg.PER_LAYER_THICKNESS = [0.3]
        nidn().run_training(seedcfg)
        self.model = seedcfg.model
        fill(self.model, plan["init_seed"], plan.get("init_scale", 0.3))
        self.cfg.model = self.model
        if plan.get("prior"):
            self._prior(plan["prior"])
        self.initial = state_of(self.model)
        self.script = {}
        for f in plan.get("script", []):
            self.script.setdefault(f["at"], []).append(f)
        self.evs = []
        self.steps = []
        self.exc = None
        self.torn = None
        self.ret = None
        self._handles = []
        self.cap = int(self.cfg.iterations) + 4
        self.initial_aliased = None

    def _prior(self, prior):
        """an earlier training of the same run, complete or stopped right before an update"""
        from torch.optim.optimizer import register_optimizer_step_pre_hook

        n, mine = [0], {id(p) for p in self.model.parameters()}

        def stop(opt, args, kwargs):
            if any(id(p) in mine for g in opt.param_groups for p in g["params"]):
                n[0] += 1
                if n[0] == prior.get("stop"):
                    raise KeyboardInterrupt("simulated ^C in an earlier training")

        it = self.cfg.iterations
        self.cfg.iterations = prior["n"]
        h = register_optimizer_step_pre_hook(stop)
        try:
            nidn().run_training(self.cfg)
            self.W.fire("earlier_training")
        except KeyboardInterrupt:
            self.W.fire("earlier_training_stopped")
        except RuntimeError as e:
            if "linalg" not in str(e):
                raise
        finally:
            h.remove()
            self.cfg.iterations = it
        if not finite_state(state_of(self.model)):
            fill(self.model, self.plan["init_seed"], 0.3, rel=False)

    # ---- hooks
    def lens(self):
        try:
            r = self.cfg.results
            return [len(r[k]) for k in ("loss_log", "weighted_average_log", "L1_errs")]
        except Exception:
            return [0, 0, 0]

    def _consistent(self, when):
        """the records belong together whenever they are not just being written"""
        n = self.lens()
        if len(set(n)) > 1 and self.torn is None:
            self.torn = "%s of evaluation %d the records hold %s losses, running averages and L1 errors" % (when, len(self.evs) - 1, n)

    def _loglen(self):
        try:
            return len(self.cfg.results.loss_log)
        except Exception:
            return 0

    def _pre(self, module, args):
        i = len(self.evs)
        if i >= self.cap:
            raise BudgetExceeded("more than %d model evaluations for %d iterations" % (self.cap, self.cfg.iterations))
        self._consistent("at the start")
        rec = dict(entry=state_of(module), kinds=[], loglen=self._loglen(), nsteps=len(self.steps), gain=None, nan_some=None)
        for f in self.script.get(i, []):
            k = f["kind"]
            rec["kinds"].append(k)
            self.W.fire("train_" + k)
            self.W.ev("eval", i, k)
            if k == "jump":
                fill(module, f["seed"], f["scale"])
            elif k == "nan_params":
                with torch.no_grad():
                    ps = list(module.parameters())
                    p = ps[f.get("which", 0) % len(ps)]
                    p.mul_(float("nan"))
            elif k == "gain":
                rec["gain"] = f["shift"]
            elif k == "nan_some":
                rec["nan_some"] = f["which"]
            elif k == "zero":
                with torch.no_grad():
                    p = list(module.parameters())[0]
                    if p.is_complex():
                        p.view(-1)[f["which"] % p.numel()] = complex(-5.0, -5.0)
            elif k == "interrupt":
                rec["state"] = state_of(module)
                self.evs.append(rec)
                raise KeyboardInterrupt("simulated ^C")
        rec["state"] = state_of(module)
        self.evs.append(rec)
        return None

    def apply_gain(self, out, shift):
        """shift > 0: the imaginary part is lowered by it; shift < 0: it is set to this (little) value"""
        c = self.cfg
        keep = 1.0 if shift > 0 else 0.0
        add = -abs(shift)
        if c.model_type == "voxel":
            return torch.complex(out.real, out.imag * keep + add)
        nx, ny = c.Nx // c.eps_oversampling, c.Ny // c.eps_oversampling
        if c.type == "regression":
            o = out.reshape(nx, ny, c.N_layers, 2 * c.N_freq)
            o = torch.cat([o[..., : c.N_freq], o[..., c.N_freq :] * keep + add], dim=-1)
            return o.reshape(out.shape)
        return out

    def apply(self, out, rec):
        """what the world does to the output of the network in this evaluation"""
        if rec["gain"]:
            out = self.apply_gain(out, rec["gain"])
        w = rec.get("nan_some")
        if w is not None:  # a single entry (for complex ones: a single part) is not a number
            mask = torch.zeros_like(torch.view_as_real(out) if out.is_complex() else out, requires_grad=False).detach()
            mask.view(-1)[w % mask.numel()] = float("nan")
            out = out + (torch.view_as_complex(mask) if out.is_complex() else mask)
        return out

    def _post(self, module, args, out):
        rec = self.evs[-1]
        out = self.apply(out, rec)
        if "nan_out" in rec["kinds"]:
            out = out * float("nan")
        if "nan_grad" in rec["kinds"]:
            out = out.clone()
            if out.requires_grad:
                out.register_hook(lambda g: g * float("nan"))
        return out

    def _step(self, opt, args, kwargs):
        mine = {id(p) for p in self.model.parameters()}
        if not any(id(p) in mine for g in opt.param_groups for p in g["params"]):
            return None
        self._consistent("at the update")
        self.steps.append(
            dict(
                ev=len(self.evs) - 1,
                lr=[float(g["lr"]) for g in opt.param_groups],
                grads={n: (None if p.grad is None else p.grad.detach().clone()) for n, p in self.model.named_parameters()},
                at=state_of(self.model),
            )
        )
        return None

    def attach(self):
        from torch.optim.optimizer import register_optimizer_step_pre_hook

        self._handles = [
            self.model.register_forward_pre_hook(self._pre),
            self.model.register_forward_hook(self._post),
            register_optimizer_step_pre_hook(self._step),
        ]

    def detach(self):
        for h in self._handles:
            h.remove()
        self._handles = []

    def run(self, tracer=None):
        import sys

        self.attach()
        try:
            if tracer:
                sys.settrace(tracer)
            try:
                self.ret = nidn().run_training(self.cfg)
            finally:
                if tracer:
                    sys.settrace(None)
        except BudgetExceeded:
            raise
        except BaseException as e:
            self.exc = e
        finally:
            self.detach()
        self.final = state_of(self.cfg.model)
        # torch refuses to differentiate through an (almost) degenerate eigenproblem; that is a
        # numerical limit of the solver on this input, not a matter of these properties
        self.numeric_abort = isinstance(self.exc, RuntimeError) and "linalg" in str(self.exc)
        if self.numeric_abort and self.evs:
            last = self.evs[-1]
            if not finite_state(last["state"]) or set(last["kinds"]) & {"nan_out", "nan_some"}:
                self.numeric_abort = False  # not a number is to be noticed before
        r = self.cfg.get("results", None)
        self.W.ev("trained", len(self.evs), len(self.steps), canon_hash(self.final), canon_hash(dict(r) if r else {}))
        return self

    # ---- reference
    def succeeded(self, i):
        nxt = self.evs[i + 1]["loglen"] if i + 1 < len(self.evs) else self._loglen()
        d = nxt - self.evs[i]["loglen"]
        return d

    def reference(self, with_grad=False, only=None):
        """Re-evaluate every successful evaluation with public API + the reference loss."""
        c2 = mkcfg(self.plan["cfg"])
        c2.target_frequencies = freqs(c2)
        if c2.type == "classification":
            c2.material_collection = nidn().MaterialCollection(c2.target_frequencies)
            c2.N_materials = c2.material_collection.N_materials
        m2 = copy.deepcopy(self.model)
        cache = {}
        out = []
        for i, rec in enumerate(self.evs):
            if only is not None and i not in only:
                out.append(None)
                continue
            if not finite_state(rec["state"]) or "nan_out" in rec["kinds"]:
                out.append(None)
                continue
            key = (canon_hash(rec["state"]), rec["gain"], rec.get("nan_some"), with_grad)
            if key in cache:
                out.append(cache[key])
                continue
            m2.load_state_dict(rec["state"])
            for p in m2.parameters():
                p.grad = None
            h = m2.register_forward_hook(lambda mod, a, o: self.apply(o, rec))
            try:
                with torch.set_grad_enabled(with_grad):
                    eps, mid = nidn().model_to_eps_grid(m2, c2)
                    try:
                        R, T = nidn().compute_spectrum(eps, c2, validate_cfg=False)
                        if not all(math.isfinite(fl(x)) for x in [*R, *T]):
                            raise ValueError("spectrum is not a number")
                    except ValueError:
                        out.append(None)
                        cache[key] = None
                        continue
                    total, spec, l1, renorm, amb = ref_loss(R, T, c2, mid)
                    g = None
                    if with_grad:
                        total.backward()
                        g = {n: (None if p.grad is None else p.grad.detach().clone()) for n, p in m2.named_parameters()}
                    v = dict(loss=fl(total), spec=fl(spec), l1=fl(l1), renorm=renorm, amb=amb, grads=g)
            finally:
                h.remove()
            cache[key] = v
            out.append(v)
        return out

    def allowed_best(self, ref, upto):
        """States a correct implementation may hold as 'best' after `upto` evaluations."""
        val, amb = [], []
        for i in range(upto):
            if ref[i] is None or self.succeeded(i) < 1:
                continue
            l = ref[i]["loss"]
            if not math.isfinite(l):
                continue
            if ref[i]["amb"]:
                amb.append((l, i))
            elif not ref[i]["renorm"]:
                val.append((l, i))
        if not val:
            return [self.initial] + [self.evs[i]["state"] for _, i in amb], val, amb
        m = min(val)[0]
        tol = 1e-7 * max(1.0, abs(m))
        ok = [self.evs[i]["state"] for l, i in val + amb if l <= m + tol]
        return ok, val, amb

    def probes(self, ref):
        p = {"evaluations": len(self.evs), "updates": len(self.steps)}
        best = math.inf
        for i in range(len(self.evs)):
            if self.succeeded(i) < 1:
                p["failed_evaluations"] = p.get("failed_evaluations", 0) + 1
                if best == math.inf:
                    p["failure_before_first_valid"] = p.get("failure_before_first_valid", 0) + 1
            r = ref[i] if ref else None
            if r is None:
                continue
            if r["renorm"]:
                p["unphysical"] = p.get("unphysical", 0) + 1
                if r["loss"] < best:
                    p["unphysical_with_record_low_loss"] = p.get("unphysical_with_record_low_loss", 0) + 1
            elif r["loss"] < best:
                best = r["loss"]
                p["new_best"] = p.get("new_best", 0) + 1
        return p


# ---------------------------------------------------------------- plan generation
def gen_cfg(rng, tier, allow_fdtd=True, classification=True, voxel=True, noise=False):
    c = {}
    c["model_type"] = rng.choice(["siren", "siren", "nerf"] + (["voxel", "voxel"] if voxel else []))
    c["type"] = "regression"
    if classification and c["model_type"] != "voxel" and rng.random() < 0.25:
        c["type"] = "classification"
        c["use_regularization_loss"] = rng.random() < 0.7
        c["reg_loss_weight"] = rng.choice([0.05, 0.5])
    c["N_freq"] = rng.choice([1, 2, 2, 3, 5])
    c["N_layers"] = rng.choice([1, 1, 2, 3])
    if rng.random() < 0.2:
        c["Nx"], c["Ny"] = 2, 2
        c["eps_oversampling"] = rng.choice([1, 2]) if c["model_type"] != "voxel" else 1
    if rng.random() < 0.4:
        c["PER_LAYER_THICKNESS"] = [round(rng.uniform(0.2, 1.2), 3) for _ in range(c["N_layers"])]
    c["L"] = rng.choice([0.5, 1.0, 1.0, 2.0])
    c["absorption_loss"] = rng.random() < 0.3
    c["learning_rate"] = rng.choice([1e-5, 1e-4, 1e-3, 1e-2, 0.1, 1.0])
    c["seed"] = rng.randrange(1, 10000)
    c["freq_distribution"] = rng.choice(["linear", "log"])
    c["target_reflectance_spectrum"] = [rng.choice([0.0, 0.1, 0.3, 0.5, 0.9, 1.0]) for _ in range(c["N_freq"])]
    c["target_transmittance_spectrum"] = [
        rng.choice([0.0, 0.1, 0.3, 0.5, 0.9, 1.0]) * (1 - r) for r in c["target_reflectance_spectrum"]
    ]
    c["real_min_eps"] = rng.choice([-10.0, 1.0, 1.0])
    c["avoid_zero_eps"] = rng.random() < 0.7
    if rng.random() < 0.5:
        c["imag_min_eps"] = rng.choice([-3.0, -0.5])
    if c.get("Nx", 1) > 1:
        c["real_min_eps"] = 1.0
    elif c["model_type"] == "voxel" and rng.random() < 0.25:  # where the solver has no answer
        c["real_min_eps"], c["avoid_zero_eps"] = 0.0, False
        c.pop("imag_min_eps", None)
    if allow_fdtd and rng.random() < (0.03 if tier == "quick" else 0.08):
        c["solver"] = "FDTD"
        c["N_freq"] = 1
        c["target_reflectance_spectrum"] = [0.3]
        c["target_transmittance_spectrum"] = [0.5]
        c.pop("Nx", None), c.pop("Ny", None), c.pop("eps_oversampling", None)
        c["N_layers"] = rng.choice([1, 2])
        c["PER_LAYER_THICKNESS"] = [0.3] * rng.choice([1, c["N_layers"]])
        c["real_min_eps"] = 1.0
        c["type"] = "regression"
        c["model_type"] = rng.choice(["siren", "voxel"])
        c["FDTD_niter"] = rng.choice([26, 34])
        c["imag_min_eps"] = 0.0
        short = rng.random()
        c = vary(rng, c)
        if short < 0.15:  # the wave never arrives: every evaluation fails
            c["FDTD_niter"] = 3
        elif short < 0.3:  # long enough for the removal of the transient
            c["FDTD_niter"] = 150
            c["N_layers"], c["PER_LAYER_THICKNESS"] = 1, [0.3]
            c["physical_wavelength_range"] = [1e-6, 1.2e-6]
        return c
    return vary(rng, c)


def gen_long(rng, c):
    """a training long enough for counters, windows and patience to matter, of a tiny structure"""
    c["N_freq"] = 1
    c["target_reflectance_spectrum"] = c["target_reflectance_spectrum"][:1]
    c["target_transmittance_spectrum"] = c["target_transmittance_spectrum"][:1]
    c.pop("Nx", None), c.pop("Ny", None), c.pop("eps_oversampling", None)
    c["N_layers"] = 1
    c["PER_LAYER_THICKNESS"] = [0.5]
    c["TRCWA_NG"] = 3
    return rng.choice([30, 60, 60, 120, 120, 260, 450])


def gen_prior(rng, rate=0.25):
    """an earlier training of the same run, maybe stopped between the gradient and the update"""
    if rng.random() >= rate:
        return None
    n = rng.randrange(1, 4)
    return {"n": n, "stop": rng.choice([None, rng.randrange(1, n + 1), n])}


def gen_script(rng, n, kinds, rate, cfg):
    s = []
    for i in range(n):
        if rng.random() >= rate:
            continue
        k = rng.choice(kinds)
        f = {"at": i, "kind": k}
        if k == "jump":
            f["seed"] = rng.randrange(1 << 30)
            f["scale"] = rng.choice([0.05, 0.5, 3.0])
        if k == "nan_params":
            f["which"] = rng.randrange(8)
        if k in ("nan_some", "zero"):
            f["which"] = rng.randrange(1 << 10)
        if k == "gain":
            f["shift"] = rng.choice([0.6, 1.2, 2.0, -1e-7, -1e-6, -1e-5, -1e-4, -1e-3, -1e-2, -0.1])
        s.append(f)
        if rng.random() < 0.15:  # two things at once
            s.append({"at": i, "kind": "jump", "seed": rng.randrange(1 << 30), "scale": 1.0})
    return s
