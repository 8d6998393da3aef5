"""C07: looking at, saving, crashing and reloading a run never changes how its training continues."""
import math
import os
import sys

import torch

from ..core import Violation, isolated, restart
from ..seams import SimCrash
from ..trace import LineInjector
from ..util import nidn, mkcfg, canon, canon_hash, state_of, tree, diff_keys, finite_state
from .. import ops as O

QUICK = dict(runs=420, budget=90)
THOROUGH = dict(runs=40000, budget=1500)
RUN_LIMIT = 180
RULE = (
    "a run trains one configuration in several segments; between segments a seeded sequence of observers (spectra, permittivity grids, "
    "all plots, saves, loads), some failing on injected disk faults, and save + process crash/restart + load; it is compared bitwise "
    "with the same segments run back to back in a pristine process; non-trivial if at least one action lies between segments; distinct by event-log digest"
)
REAL = ["training", "networks", "TRCWA", "FDTD", "save_run/load_run", "plots (figure construction)", "material data base"]
STUB = ["figure rasterisation (recorded data is written instead of pixels)", "disk faults, process death, clock"]
SCHED_MEASURE = "distinct sequences of actions and faults between segments"

PLOTS = ["plot_losses", "plot_spectra", "plot_model_grid", "plot_model_grid_per_freq", "plot_material_grid", "plot_eps_per_point", "plot_epsilon_grid", "plot_spectrum"]


def gen(rng, tier, idx):
    fd = rng.random() < 0.12
    spec = O.tame_cfg(rng, "FDTD" if fd else None)
    if not fd and rng.random() < 0.5:
        O.set_nfreq(spec, 4)
    if not fd and spec["model_type"] != "voxel" and rng.random() < 0.25:
        spec["type"] = "classification"
        spec["use_regularization_loss"] = rng.random() < 0.5
    nseg = rng.randrange(2, 4)
    acts = []
    for i in range(nseg):
        a = []
        for _ in range(rng.randrange(0, 4 if tier == "quick" else 7)):
            k = rng.choice(["plot"] * 6 + ["eps", "eps", "spectrum", "spectrum", "save", "save_fail", "reload", "reload", "reload_best", "scramble", "materials", "otherrun", "all_plots", "every_option", "every_option"])
            d = {"do": k, "r": rng.randrange(1 << 30), "fault": None}
            if k == "plot":
                d["plot"] = rng.choice(PLOTS)
            if k in ("plot", "all_plots", "every_option") and rng.random() < 0.35:
                d["fault"] = rng.choice(
                    [
                        {"op": "wopen", "at": 0, "kind": rng.choice(["EACCES", "ENOSPC"])},
                        {"op": "write", "file": 0, "byte": rng.randrange(200), "kind": rng.choice(["ENOSPC", "interrupt"])},
                        {"op": "ropen", "at": 0, "kind": "EIO"},
                    ]
                )
            if k in ("plot", "all_plots", "every_option", "eps", "spectrum", "save", "materials") and not d["fault"] and rng.random() < 0.25:
                d["stop"] = int(math.exp(rng.uniform(0, math.log({"plot": 600, "all_plots": 3000, "every_option": 3000}.get(k, 300)))))
            a.append(d)
        acts.append(a)
    return {
        "spec": spec,
        "segments": [{"n": rng.randrange(1, 2 if fd else 4), "ops": acts[i]} for i in range(nseg)],
        "clock": rng.choice([[0.0], [1.0], [0.0, -5.0, 2.0]]),
    }


def valid(plan):
    return len(plan["segments"]) >= 1


def summary(c):
    return dict(state=canon(state_of(c.model)), best=canon(dict(c.best_model_state_dict)), results=canon(dict(c.results)), freqs=canon(c.target_frequencies))


def value(c):
    v = {str(k): canon(x) for k, x in c.items() if k not in ("model", "material_collection")}
    v["_keys"] = sorted(str(k) for k in c.keys())
    v["_model"] = [canon(state_of(c.model)), [p.requires_grad for p in c.model.parameters()], c.model.training]
    if "material_collection" in c:
        m = c.material_collection
        v["_mat"] = [list(m.material_names), canon(m.epsilon_matrix), canon(m.target_frequencies)]
    return v


def baseline(plan):
    c = mkcfg(plan["spec"])
    out = []
    for s in plan["segments"]:
        c.iterations = s["n"]
        nidn().run_training(c)
        out.append(summary(c))
    return out


def plot(c, name, where, r=0):
    n = nidn()
    if r % 2 and name in ("plot_material_grid", "plot_eps_per_point", "plot_spectra"):
        # with all their options
        eps, _ = n.model_to_eps_grid(c.model, c)
        if name == "plot_material_grid":
            names = list(n.MaterialCollection(c.target_frequencies).material_names)
            skip = [names[r % len(names)]] if r % 3 else None
            n.plot_material_grid(c, save_path=where, eps=eps if r % 5 else None, plot_error=bool(r & 8), to_skip=skip)
        elif name == "plot_eps_per_point":
            n.plot_eps_per_point(c, compare_to_material=["germanium", ["germanium", "zinc_oxide"]][r % 3 % 2], save_path=where, legend=bool(r & 8), file_id=r % 7)
        else:
            R, T = n.compute_spectrum(eps, c)
            n.plot_spectra(c, prod_R_spectrum=torch.tensor([float(x) for x in R]), prod_T_spectrum=torch.tensor([float(x) for x in T]), save_path=where, markers=bool(r & 8), filename="own")
        return
    if name == "plot_epsilon_grid":
        eps, _ = n.model_to_eps_grid(c.model, c)
        n.plot_epsilon_grid(eps, c, save_path=where)
    elif name == "plot_spectrum":
        n.plot_spectrum(c, [0.1] * c.N_freq, [0.2] * c.N_freq, save_path=where)
    elif name == "plot_model_grid_per_freq":
        n.plot_model_grid_per_freq(c, freq_idx=list(range(min(4, c.N_freq))), save_path=where)
    else:
        getattr(n, name)(c, save_path=where)


def act(c, d, W, n, probes):
    """perform one action; returns the configuration to continue with"""
    import matplotlib.pyplot as plt

    k = d["do"]
    out = os.path.join(W.root, "plots")
    os.makedirs(out, exist_ok=True)
    before = value(c)
    env0 = O.process_state()
    W.ev("act", k, d.get("plot"))
    expect = None
    inj = None
    try:
        W.arm([d["fault"]] if d["fault"] else [])
        try:
            if d.get("stop"):
                inj = LineInjector(d["stop"], KeyboardInterrupt("simulated ^C"))
                sys.settrace(inj)
            if k == "plot":
                plot(c, d["plot"], out, d["r"])
            elif k == "all_plots":
                nidn().save_all_plots(c, out)
            elif k == "every_option":
                for p in PLOTS:
                    plot(c, p, out, d["r"] | 1)
            elif k == "eps":
                nidn().model_to_eps_grid(c.model, c)
            elif k == "spectrum":
                eps, _ = nidn().model_to_eps_grid(c.model, c)
                nidn().compute_spectrum(eps, c)
            elif k in ("save", "reload", "reload_best"):
                nidn().save_run(c, "seg%d" % n)
            elif k == "save_fail":
                W.arm([{"op": "write", "file": 0, "byte": d["r"] % 4000, "kind": ["ENOSPC", "EIO", "interrupt"][d["r"] % 3]}])
                nidn().save_run(c, "seg%d" % n)
            elif k == "scramble":
                O.scramble(d["r"])
            elif k == "materials":
                nidn().MaterialCollection(c.target_frequencies, to_skip=["germanium"])
            elif k == "otherrun":
                O.do_train({"seed": d["r"] % 1000, "iterations": 1})
        except (OSError, KeyboardInterrupt) as e:
            expect = e
    finally:
        sys.settrace(None)
        W.disarm()
        plt.close("all")
    if inj is not None and inj.fired:
        W.fire("interrupt")
        if expect is None:
            raise Violation("stop-swallowed", "an interrupt of %s %s did not reach the caller" % (k, d.get("plot", "")))
    if expect is not None:
        if not d["fault"] and k != "save_fail" and not (inj and inj.fired):
            raise expect
        probes["failed_observers"] = probes.get("failed_observers", 0) + 1
    if k in ("reload", "reload_best"):
        d0 = os.path.join(W.root, "results", "seg%d" % n)
        files = sorted(os.listdir(d0), key=lambda f: (os.path.getmtime(os.path.join(d0, f)), f))
        # the newest complete file of this place
        want = value(c)
        W.fire("process_restart")
        restart()
        got = None
        for f in reversed(files):
            try:
                got = nidn().load_run(os.path.join(d0, f))
            except Exception:
                continue
            if value(got) == want:
                break
        if got is None or value(got) != want:
            dk = diff_keys(value(got), want) if got is not None else "nothing loadable"
            raise Violation("reload", "the run read back after a restart differs in %s" % (dk,))
        c = got
        probes["reloads"] = probes.get("reloads", 0) + 1
        if k == "reload_best":
            # the kept best state is what the model already holds after training
            c.model.load_state_dict(c.best_model_state_dict)
    env = O.process_state()
    if env != env0:
        raise Violation("process-state", "%s %s changed %s" % (k, d.get("plot", ""), diff_keys(env0, env)))
    after = value(c)
    if before != after:
        raise Violation("observer-mutates", "%s %s changed %s of the run" % (k, d.get("plot", ""), diff_keys(before, after)))
    return c


def run(plan, W):
    W.clock_steps = list(plan["clock"]) or [0.0]
    data = os.path.join(os.path.dirname(nidn().__file__), "materials", "data")
    W.read_roots = (data,)
    base = isolated(baseline, plan)
    c = mkcfg(plan["spec"])
    probes = {}
    sched = []
    for i, s in enumerate(plan["segments"]):
        c.iterations = s["n"]
        nidn().run_training(c)
        got = summary(c)
        if got != base[i]:
            raise Violation("training-altered", "segment %d: %s differ from uninterrupted training" % (i, diff_keys(got, base[i])))
        for d in s["ops"]:
            c = act(c, d, W, i, probes)
            sched.append((i, d["do"], d.get("plot"), (d["fault"] or {}).get("kind"), bool(d.get("stop"))))
    W.ev("final", canon_hash(summary(c)))
    n = sum(len(s["ops"]) for s in plan["segments"][:-1])
    return dict(nontrivial=n > 0, probes=probes, steps=len(plan["segments"]) + len(sched), sched=str(sched))
