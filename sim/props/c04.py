"""C04: the training record and every update are those of the evaluation they belong to."""
import math

import numpy as np
import torch

from ..core import Violation
from ..train import TrainSim, gen_cfg, gen_long, gen_script, gen_prior
from ..util import close

QUICK = dict(runs=500, budget=45)
THOROUGH = dict(runs=40000, budget=1500)
RUN_LIMIT = 120
RULE = (
    "a run is one training under the evaluation faults of C01; every record entry and every gradient handed to the optimiser is "
    "recomputed by an independent reference loss on the recorded design; non-trivial if at least two evaluations succeeded and a "
    "fault fired; distinct by event-log digest"
)
REAL = ["training loop", "networks", "TRCWA solver", "FDTD solver", "losses", "material data base", "torch optimiser/scheduler"]
STUB = ["none; faults enter through torch module hooks, gradients are read through torch's optimiser step hook"]
KINDS = ["jump", "zero", "nan_out", "nan_some", "nan_params", "nan_grad", "gain"]


def gen(rng, tier, idx):
    c = gen_cfg(rng, tier)
    n = rng.randrange(2, 9)
    if rng.random() < 0.15:
        n = rng.randrange(21, 27)  # longer than the averaging window
        c["N_freq"] = 1
        c["target_reflectance_spectrum"] = c["target_reflectance_spectrum"][:1]
        c["target_transmittance_spectrum"] = c["target_transmittance_spectrum"][:1]
        c.pop("Nx", None), c.pop("Ny", None), c.pop("eps_oversampling", None)
        c["N_layers"] = 1
        c["PER_LAYER_THICKNESS"] = [0.5]
    if c.get("solver") == "FDTD":
        n = min(n, 3)
    long = rng.random() < 0.03 and c.get("solver") != "FDTD"
    if long:
        n = gen_long(rng, c)
    c["iterations"] = n
    kinds = [k for k in KINDS if rng.random() < 0.6] or ["jump"]
    if c.get("imag_min_eps", 0.0) >= 0.0:
        kinds = [k for k in kinds if k != "gain"] or ["jump"]
    return {
        "cfg": c,
        "init_seed": rng.randrange(1 << 30),
        "init_scale": rng.choice([0.05, 0.3, 1.0]),
        "script": gen_script(rng, n, kinds, rng.choice([0.01, 0.05] if long else [0.0, 0.2, 0.5]), c),
        "prior": gen_prior(rng),
    }


def run(plan, W):
    t = TrainSim(plan, W).run()
    if t.numeric_abort:
        return dict(probes={"solver_linalg_abort": 1}, nontrivial=False)
    if t.exc is not None:
        raise t.exc
    if t.torn:
        raise Violation("record-length", t.torn)
    ref = t.reference(with_grad=True)
    n = len(t.evs)
    succ = [i for i in range(n) if t.succeeded(i) >= 1]
    res = t.cfg.results
    logs = {k: list(res[k]) for k in ("loss_log", "weighted_average_log", "L1_errs")}
    for k, lg in logs.items():
        if len(lg) != len(succ):
            raise Violation("record-length", "%s holds %d entries for %d successful evaluations" % (k, len(lg), len(succ)))
    grads = 0
    hist = []
    for j, i in enumerate(succ):
        r = ref[i]
        hist.append(logs["loss_log"][j])
        wa = float(np.mean(hist[-20:]))
        if not close(logs["weighted_average_log"][j], wa, 1e-9, 1e-12):
            raise Violation("weighted-average", "entry %d is %r, mean of the last 20 losses is %r" % (j, logs["weighted_average_log"][j], wa))
        if r is None:
            raise Violation("record-of-failure", "entry %d belongs to evaluation %d, which has no defined spectrum" % (j, i))
        if r["amb"]:
            continue
        if not close(logs["loss_log"][j], r["loss"], 1e-7, 1e-10):
            raise Violation("loss-entry" + ("-unphysical" if r["renorm"] else ""), "evaluation %d: recorded loss %r, defined loss %r (R+T>1: %s)" % (i, logs["loss_log"][j], r["loss"], r["renorm"]))
        if not close(logs["L1_errs"][j], r["l1"], 1e-7, 1e-10):
            raise Violation("l1-entry" + ("-unphysical" if r["renorm"] else ""), "evaluation %d: recorded L1 %r, defined L1 %r" % (i, logs["L1_errs"][j], r["l1"]))
        st = [s for s in t.steps if s["ev"] == i]
        if len(st) != 1:
            raise Violation("update-count", "%d updates after evaluation %d" % (len(st), i))
        if "nan_grad" in t.evs[i]["kinds"]:
            continue
        for name, g in r["grads"].items():
            h = st[0]["grads"].get(name)
            if g is None:
                g = torch.zeros_like(t.evs[i]["state"][name])
            if h is None:
                h = torch.zeros_like(g)
            gv = torch.view_as_real(g) if g.is_complex() else g
            hv = torch.view_as_real(h) if h.is_complex() else h
            if not bool(torch.isfinite(gv).all()) or float(gv.abs().max()) > 1e8:
                continue
            grads += 1
            tol = 1e-5 * float(gv.abs().max()) + 1e-9
            dev = float((gv - hv).abs().max())
            if not dev <= tol:
                raise Violation("gradient", "update after evaluation %d uses a gradient that differs from that evaluation's by %g (max |g| %g) for %s" % (i, dev, float(gv.abs().max()), name))
    p = t.probes(ref)
    p["gradients_compared"] = grads
    p["longer_than_window"] = int(len(succ) > 20)
    return dict(probes=p, steps=n, sched=str([(f["at"], f["kind"]) for f in plan["script"]]), nontrivial=len(succ) >= 2 and bool(plan["script"]))
