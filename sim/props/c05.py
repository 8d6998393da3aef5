"""C05: results depend on the configuration alone, not on history or environment."""
import json
import os

import numpy as np
import torch

from ..core import Violation, isolated
from ..seams import SimCrash
from ..trace import LineInjector
from ..util import nidn, mkcfg, freqs, diff_keys, canon
from .. import ops as O

QUICK = dict(runs=600, budget=80)
THOROUGH = dict(runs=40000, budget=1500)
RUN_LIMIT = 180
RULE = (
    "a run computes one target result (training, spectrum with or without gradient, material data base, permittivity grid, layers) "
    "once in a pristine process and once after a seeded history of other operations, some of them failing or interrupted, with "
    "scrambled generators, permuted directory order, another clock and log level; non-trivial if the history is not empty; distinct by event-log digest"
)
REAL = ["training", "TRCWA", "FDTD", "networks", "material data base", "layer builder", "save/load", "validation"]
STUB = ["directory enumeration order, clock and global generators are set by the simulator"]
SCHED_MEASURE = "distinct histories (sequence of operation kinds and faults)"

TARGETS = ["train", "train", "train", "spectrum", "spectrum_grad", "fdtd", "materials", "eps", "layers", "train_fdtd"]
HIST = ["train", "train_stop", "spectrum", "spectrum_nan", "fdtd", "fdtd_stop", "materials", "materials_fail", "eps", "layers",
        "twin", "twin", "twin", "twin_stop", "op_stop", "look", "look", "look", "look", "plots_stop", "bad_cfg", "save", "save_fail", "loglevel", "default_mutate", "same", "same_stop", "grid", "plots", "load", "reseed", "scribble", "scribble"]


def gen_target(rng, kind=None):
    k = kind or rng.choice(TARGETS)
    t = {"kind": k}
    if k in ("train", "spectrum", "spectrum_grad", "eps"):
        t["spec"] = O.tame_cfg(rng)
        if rng.random() < (0.25 if k in ("spectrum", "spectrum_grad") else 0.08):
            O.patterned(rng, t["spec"])
    elif k in ("fdtd", "train_fdtd"):
        t["spec"] = O.tame_cfg(rng, "FDTD")
    if k in ("spectrum", "spectrum_grad", "fdtd"):
        t["seed"] = rng.randrange(1000)
    if k == "eps":
        t["seed"] = rng.randrange(1000)
    if k in ("materials", "layers"):
        t["fr"] = sorted(round(rng.uniform(0.15, 1.2), 4) for _ in range(rng.choice([1, 2, 4])))
        t["skip"] = None
    if k == "layers":
        t["n"] = rng.choice([2, 5])
    return t


def gen_twin(rng, t):
    """the target with little changes: what a too coarse cache or left-over would confuse with it"""
    w = json.loads(json.dumps(t))
    if "spec" in w:
        w["spec"] = O.twin(rng, w["spec"])
    if "fr" in w:
        i = rng.randrange(len(w["fr"]))
        w["fr"][i] = round(rng.uniform(0.15, 1.2), 4)
        w["fr"].sort()
        if rng.random() < 0.3:
            w["skip"] = rng.choice([["germanium"], "gold", ["aluminium_oxide", "zinc_oxide"]]) if w["kind"] == "materials" else None
    if "seed" in w and rng.random() < 0.3:
        w["seed"] = rng.randrange(1000)
    if "spec" in w and rng.random() < 0.3:
        w["kind"] = rng.choice(["train", "spectrum", "spectrum_grad", "eps"]) if w["spec"].get("solver") != "FDTD" else "fdtd"
        w.setdefault("seed", rng.randrange(1000))
    return w


def gen(rng, tier, idx):
    t = gen_target(rng)
    hist = []
    for _ in range(rng.randrange(0, 5 if tier == "quick" else 10)):
        k = rng.choice(HIST)
        h = {"kind": k, "frac": rng.random(), "t": None, "sub": rng.randrange(1 << 30)}
        if k in ("train", "train_stop"):
            h["t"] = gen_target(rng, "train")
        elif k in ("spectrum", "spectrum_nan"):
            h["t"] = gen_target(rng, "spectrum")
        elif k in ("fdtd", "fdtd_stop"):
            h["t"] = gen_target(rng, "fdtd")
        elif k in ("materials", "materials_fail", "layers", "eps"):
            h["t"] = gen_target(rng, k if k in ("layers", "eps") else "materials")
        elif k == "loglevel":
            h["level"] = rng.choice(["TRACE", "DEBUG", "INFO", "WARNING", "ERROR"])
        elif k in ("twin", "twin_stop"):
            h["t"] = gen_twin(rng, t)
        elif k == "scribble":
            h["t"] = t if rng.random() < 0.7 else gen_twin(rng, t)
        elif k == "op_stop":
            h["t"] = gen_target(rng, rng.choice(["spectrum", "spectrum_grad", "materials", "eps", "layers"]))
        elif k == "look" and "spec" not in t:
            continue
        hist.append(h)
    return {
        "target": t,
        "history": hist,
        "env": {
            "scramble": rng.randrange(1 << 30),
            "order": rng.randrange(1 << 30) if rng.random() < 0.8 else None,
            "clock": rng.choice([0.0, 1e6, -3e7, 86400.0]),
            "level": rng.choice(["CRITICAL", "CRITICAL", "INFO", "DEBUG", "TRACE"]),
            "cwd": rng.random() < 0.3,
        },
    }


def perform(t, cfg=None):
    k = t["kind"]
    if k in ("train", "train_fdtd"):
        return O.do_train(t["spec"], cfg=cfg)
    if k in ("spectrum", "fdtd"):
        return O.do_spectrum(t["spec"], t["seed"], cfg=cfg)
    if k == "spectrum_grad":
        return O.do_spectrum(t["spec"], t["seed"], grad=True, cfg=cfg)
    if k == "materials":
        return O.do_materials(t["fr"], t["skip"])
    if k == "eps":
        return O.do_eps(t["spec"], t["seed"], cfg=cfg)
    if k == "layers":
        return O.do_layers(t["fr"], "germanium", "aluminium_oxide", t["n"])
    raise AssertionError(k)


def _stopped(fn, frac, W):
    """run fn but stop it at a seeded fraction of its executed library lines"""
    import sys

    def dry():
        inj = LineInjector()
        sys.settrace(inj)
        try:
            fn()
        finally:
            sys.settrace(None)
        return inj.n

    n = isolated(dry)
    inj = LineInjector(1 + int(frac * max(0, n - 1)), KeyboardInterrupt("simulated ^C"))
    sys.settrace(inj)
    try:
        fn()
    except KeyboardInterrupt:
        W.fire("interrupt")
    finally:
        sys.settrace(None)


def look(c, sel):
    """use the very configuration object of the target without asking for a change of it"""
    n = nidn()
    n.get_frequency_points(c)
    if sel % 6 in (0, 4, 5):
        n.compute_spectrum(O.some_eps(c, sel, 1.5, 4.0 if c.solver == "FDTD" else 9.0), c)
    elif sel % 6 == 1:
        with O.silence():
            n.print_cfg(c)
    elif sel % 6 == 2:
        n.plot_spectrum(c, [0.1] * c.N_freq, [0.2] * c.N_freq, save_path=".")
    else:
        import importlib

        importlib.import_module("nidn.utils.validate_config")._validate_config(c)


def scribble(t):
    """do it, and then overwrite everything that came back: it belongs to the user"""
    n = nidn()
    got = []
    if "spec" in t:
        c = mkcfg(t["spec"])
        got.append(n.load_default_cfg())
        c.target_frequencies = freqs(c)
        eps = O.some_eps(c, t.get("seed", 3), 1.5, 4.0 if c.solver == "FDTD" else 9.0)
        if t["kind"].startswith("train") or t["kind"] == "eps":
            n.run_training(c)
            got += list(n.model_to_eps_grid(c.model, c))
        else:
            got += list(n.compute_spectrum(eps, c))
        got += list(n.get_frequency_points(c)) + [freqs(c), eps, c]
    else:
        m = n.MaterialCollection(np.array(t["fr"]), to_skip=t["skip"])
        c = mkcfg(dict(Nx=t.get("n", 2), Ny=t.get("n", 2), N_freq=len(t["fr"])))
        c.target_frequencies = np.array(t["fr"])
        b = n.LayerBuilder(c)
        got += [m, b, b.build_uniform_layer("germanium"), b.build_squared_layer("germanium", "aluminium_oxide"), b.build_circle_layer("germanium", "aluminium_oxide"), c]
    overwrite(got, set())


def overwrite(o, seen):
    if id(o) in seen:
        return
    seen.add(id(o))
    if isinstance(o, torch.nn.Module):
        for p in o.parameters():
            overwrite(p, seen)
    elif isinstance(o, torch.Tensor):
        with torch.no_grad():
            o.mul_(0).add_(3)
    elif isinstance(o, np.ndarray):
        if o.flags.writeable:
            o *= 0.5
    elif isinstance(o, list):
        for x in list(o):
            overwrite(x, seen)
        o.reverse()
        o.append(o[0] if o else 1)
    elif isinstance(o, tuple):
        for x in o:
            overwrite(x, seen)
    elif hasattr(o, "items") and hasattr(o, "keys"):
        for k in list(o.keys()):
            v = o[k]
            overwrite(v, seen)
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                o[k] = v + 1
    elif type(o).__module__.startswith("nidn"):
        for k, v in list(vars(o).items()):
            overwrite(v, seen)


def all_plots(W):
    import matplotlib.pyplot as plt

    c = mkcfg({"N_freq": 2})
    nidn().run_training(c)
    try:
        nidn().save_all_plots(c, os.path.join(W.root, "hp"))
    finally:
        plt.close("all")


def hist_op(h, target, W, cfg=None):
    k = h["kind"]
    n = nidn()
    t = h["t"]
    W.ev("hist", k)
    if k in ("train", "spectrum", "fdtd", "materials", "eps", "layers"):
        perform(t)
    elif k == "twin":
        perform(t)
    elif k == "scribble":
        scribble(t)
    elif k == "look":
        if cfg is not None:
            look(cfg, h["sub"])
    elif k == "plots_stop":
        if h["sub"] % 3:
            _stopped(lambda: all_plots(W), h["frac"], W)
        else:
            all_plots(W)
    elif k in ("train_stop", "fdtd_stop", "twin_stop", "op_stop"):
        _stopped(lambda: perform(t), h["frac"], W)
    elif k == "same":
        perform(target)
    elif k == "same_stop":
        _stopped(lambda: perform(target), h["frac"], W)
    elif k == "spectrum_nan":
        c = mkcfg(t["spec"])
        c.target_frequencies = freqs(c)
        eps = O.some_eps(c, t["seed"])
        eps[0, 0, 0, 0] = float("nan")
        try:
            n.compute_spectrum(eps, c)
        except ValueError:
            W.fire("nan_input_rejected")
    elif k == "materials_fail":
        W.arm([{"op": "ropen", "at": h["sub"] % 9, "kind": ["EIO", "EMFILE", "EACCES"][h["sub"] % 3]}])
        try:
            perform(t)
        except OSError:
            pass
        finally:
            W.disarm()
    elif k == "bad_cfg":
        c = mkcfg({})
        sel = h["sub"] % 3
        if sel == 0:
            c["no_such_key"] = 1
        elif sel == 1:
            c["Nx"] = -1
        else:
            c["freq_distribution"] = "cubic"
        try:
            n.run_training(c)
        except (KeyError, RuntimeError, TypeError, ValueError):
            W.fire("invalid_config_rejected")
    elif k in ("save", "save_fail", "load"):
        c = mkcfg({"name": "h%d" % (h["sub"] % 7)})
        if k == "save_fail":
            W.arm([{"op": "write", "file": 0, "byte": h["sub"] % 500, "kind": "ENOSPC"}])
        try:
            n.save_run(c, "hist")
        except OSError:
            pass
        finally:
            W.disarm()
        if k == "load":
            d = os.path.join(W.root, "results", "hist")
            for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
                try:
                    n.load_run(os.path.join(d, f))
                except Exception:
                    pass
                break
    elif k == "loglevel":
        n.set_log_level(h["level"])
    elif k == "default_mutate":
        c = n.load_default_cfg()
        for key in list(c.keys()):
            v = c[key]
            if isinstance(v, list):
                v.append(v[0] if v else 1)
            elif isinstance(v, (int, float)) and not isinstance(v, bool):
                c[key] = v + 1
    elif k == "grid":
        from importlib import import_module

        f = import_module("nidn.fdtd")
        g = f.Grid((12, 3, 1), grid_spacing=1e-7)
        g[0:3, :, :] = f.PML(name="a")
        g[5, :, 0] = f.LineSource(period=3e-15, name="s")
        g[8, :, 0] = f.LineDetector(name="d")
        g.run(4, progress_bar=False)
    elif k == "plots":
        import matplotlib.pyplot as plt

        c = mkcfg({})
        c.results = {"L1_errs": [1.0, 0.5], "loss_log": [2.0, 1.0], "weighted_average_log": [2.0, 1.5]}
        from dotmap import DotMap

        c.results = DotMap(c.results)
        n.plot_losses(c, save_path=W.root)
        plt.close("all")
    elif k == "reseed":
        n.fix_random_seeds(h["sub"])


def run(plan, W):
    t = plan["target"]
    data = os.path.join(os.path.dirname(nidn().__file__), "materials", "data")
    W.read_roots = (data,)
    base = isolated(perform, t)
    cfg = mkcfg(t["spec"]) if "spec" in t and any(h["kind"] == "look" for h in plan["history"]) else None
    for h in plan["history"]:
        before = O.process_state()
        hist_op(h, t, W, cfg)
        after = O.process_state()
        if before != after:
            raise Violation("process-state", "%s changed %s" % (h["kind"], diff_keys(before, after)))
    e = plan["env"]
    O.scramble(e["scramble"])
    W.order_seed = e["order"]
    W.now += e["clock"]
    if e["clock"]:
        W.fire("clock_offset")
    nidn().set_log_level(e["level"])
    if e["cwd"]:
        d = os.path.join(W.root, "elsewhere")
        os.makedirs(d, exist_ok=True)
        os.chdir(d)
        W.fire("other_cwd")
    before = O.process_state()
    got = perform(t, cfg)
    after = O.process_state()
    if before != after:
        raise Violation("process-state", "%s changed %s" % (t["kind"], diff_keys(before, after)))
    if json.dumps(got, sort_keys=True) != json.dumps(base, sort_keys=True):
        raise Violation(
            "history-dependent",
            "%s: %s differ from the result in a fresh process" % (t["kind"], diff_keys(canon(got), canon(base))),
        )
    W.ev("target", t["kind"], json.dumps(got, sort_keys=True))
    return dict(
        nontrivial=bool(plan["history"]),
        steps=len(plan["history"]) + 1,
        probes={"target_" + t["kind"]: 1},
        sched="%s<-%s|%s" % (t["kind"], [h["kind"] for h in plan["history"]], e["order"] is not None),
    )
