"""C09: concurrent evaluations in one process do not disturb one another."""
import json
import math
import os

import numpy as np
import torch

from ..core import Violation, isolated, numeric_abort
from ..sched import Scheduler, sites_of
from ..seams import REAL as RAW
from ..util import nidn, mkcfg, freqs, canon, canon_hash, diff_keys, state_of, tree
from .. import ops as O

QUICK = dict(runs=1100, budget=100)
THOROUGH = dict(runs=40000, budget=1500)
RUN_LIMIT = 180
RULE = (
    "a run executes 2-4 evaluations (TRCWA and FDTD spectra with or without gradients, permittivity grids, material collections, grid "
    "simulations, trainings of separate models, saves) in real threads under a seeded line-granular scheduler, sharing or not sharing "
    "the configuration and model objects, and compares each result bitwise with the same evaluation alone in a pristine process; "
    "non-trivial if at least two preemptions inside library code happened; distinct by event-log digest"
)
REAL = ["TRCWA", "FDTD", "networks", "material data base", "training", "save_run", "torch autograd"]
STUB = ["the thread scheduler (one thread runs at a time, switched at executed library lines)", "clock"]
SCHED_MEASURE = "distinct sequences of preemption points (thread, file, function)"
ASSUMPTIONS = ["preemption happens between executed source lines of the library; third-party calls are atomic"]


def gen(rng, tier, idx):
    shared = rng.random() < 0.6
    flavour = rng.choice(["trcwa", "trcwa", "fdtd", "mixed"])
    n = rng.randrange(2, 4 if tier == "quick" else 5)
    if shared:
        spec = O.tame_cfg(rng, "FDTD" if flavour == "fdtd" else None)
        spec["add_noise"] = False
    jobs = []
    # races are most likely between threads doing the same thing
    same = rng.choice([None, "spectrum", "spectrum", "spectrum_grad", "eps", "eps", "materials", "train", "grid", "save"])
    for i in range(n):
        if not shared:
            fd = flavour == "fdtd" or (flavour == "mixed" and rng.random() < 0.4)
            if jobs and rng.random() < 0.5:
                s = O.twin(rng, jobs[0]["spec"])
                fd = s.get("solver") == "FDTD"
            else:
                s = O.tame_cfg(rng, "FDTD" if fd else None)
            s["add_noise"] = False
        else:
            s = spec
            fd = s.get("solver") == "FDTD"
        k = rng.choice(["spectrum"] * 4 + ["spectrum_grad", "eps", "eps", "materials", "train", "grid", "save"])
        if same and rng.random() < 0.8:
            k = same
        if fd and k == "train":
            k = "spectrum"
        j = {"kind": k, "spec": s, "seed": rng.randrange(1000), "fr": sorted(round(rng.uniform(0.15, 1.2), 4) for _ in range(rng.choice([1, 2, 3])))}
        jobs.append(j)
    kinds = {j["kind"] for j in jobs}
    nr = 24 if kinds <= {"eps", "save", "materials"} else 10 if kinds <= {"eps", "spectrum", "materials", "grid"} and flavour == "trcwa" else 3
    return {"threads": jobs, "rounds": [gen_round(rng, n) for _ in range(rng.randrange(1, nr + 1))], "shared": shared}


def gen_round(rng, n):
    sw = []
    for _ in range(rng.choice([2, 4, 10, 40, 120])):
        sw.append([rng.randrange(n), int(math.exp(rng.uniform(0, math.log(rng.choice([20, 200, 4000])))))])
    # switches at places chosen uniformly among the distinct source lines of a job, however rarely executed
    br = []
    if rng.random() < 0.7:
        sw = sw[: rng.choice([0, 1, 3])]
        for _ in range(rng.choice([1, 2, 3, 6])):
            br.append([rng.randrange(n), round(rng.random(), 4), rng.choice([1, 1, 1, 2, 3, 5]), rng.choice([10, 40, 150, 500, 2000, 10**6]), rng.choice([0, 0, 1, 2, 2])])
    return {"switches": sw, "breaks": br, "again": rng.choice([0, 1, -1])}


def valid(plan):
    return len(plan["threads"]) >= 1 and len(plan["rounds"]) >= 1


def make_model(spec):
    c = mkcfg(dict(spec, iterations=1, solver="TRCWA", add_noise=False))
    nidn().run_training(c)
    return c.model


def prepare(j, shared_cfg=None, shared_model=None, W=None, tid=0):
    """returns a closure performing the job; everything random happens here"""
    k = j["kind"]
    n = nidn()
    if k == "materials":
        return lambda: O.do_materials(j["fr"])
    if k == "grid":
        return lambda: grid_job(j["seed"])
    c = shared_cfg if shared_cfg is not None else mkcfg(j["spec"])
    if k in ("spectrum", "spectrum_grad"):
        c.target_frequencies = freqs(c)
        eps = O.some_eps(c, j["seed"], 1.5, 4.0 if c.solver == "FDTD" else 9.0)

        def f():
            e = eps.clone()
            if k == "spectrum_grad":
                e.requires_grad_(True)
            R, T = n.compute_spectrum(e, c)
            out = dict(R=[canon(x) for x in R], T=[canon(x) for x in T])
            if k == "spectrum_grad":
                s = sum(r + 0.5 * t for r, t in zip(R, T))
                out["g"] = canon(torch.autograd.grad(s, e)[0])
            return out

        return f
    model = shared_model if shared_model is not None else make_model(j["spec"])
    if k == "eps":
        full(c)

        def f():
            out = []
            for _ in range(3):
                eps, mid = n.model_to_eps_grid(model, c)
                out.append(dict(eps=canon(eps), mid=canon(mid) if mid is not None else None))
            return out

        return f
    if k == "train":
        import copy

        def f():
            c = mkcfg(dict(j["spec"], iterations=2))
            c.model = copy.deepcopy(model)
            n.run_training(c)
            return dict(state=canon(state_of(c.model)), results=canon(dict(c.results)))

        return f
    if k == "save":
        c2 = mkcfg({"name": "same", "seed": 1 + j["seed"]})

        def f():
            n.save_run(c2, "t")
            return {"seed": c2.seed}

        return f
    raise AssertionError(k)


def full(c):
    c.target_frequencies = freqs(c)
    if c.type == "classification":
        c.material_collection = nidn().MaterialCollection(c.target_frequencies)
        c.N_materials = c.material_collection.N_materials


def grid_job(seed):
    from importlib import import_module

    f = import_module("nidn.fdtd")
    r = __import__("random").Random(seed)
    g = f.Grid((r.randrange(10, 16), 3, 1), grid_spacing=1e-7)
    g[0:3, :, :] = f.PML(name="pl")
    g[-3:, :, :] = f.PML(name="ph")
    g[:, 0, :] = f.PeriodicBoundary(name="yb")
    g[4, :, 0] = f.LineSource(period=r.uniform(2e-15, 5e-15), name="src")
    d = f.LineDetector(name="det")
    g[7, :, 0] = d
    if r.random() < 0.5:
        g[5:7, :, :] = f.AbsorbingObject(permittivity=torch.tensor(r.uniform(1.5, 4)), conductivity=torch.tensor(1e3))
    g.run(r.randrange(4, 9), progress_bar=False)
    v = d.detector_values()
    return dict(E=canon(v["E"]), H=canon(v["H"]), Ef=canon(g.E), Hf=canon(g.H))


def alone(j):
    if j["kind"] == "save":
        # its source lines, from a save elsewhere (this process ends right after)
        f = prepare(j)
        os.makedirs("../alone/work", exist_ok=True)
        os.chdir("../alone/work")
        return sites_of(f, 2)
    return sites_of(prepare(j), 2 if j["kind"] in ("spectrum", "spectrum_grad", "materials", "grid") and j["spec"].get("solver") != "FDTD" else 1)


def run(plan, W):
    base, sites = [], []
    for j in plan["threads"]:
        b, q = isolated(alone, j)
        base.append(b)
        sites.append([[tuple(x) for x in y] for y in q])
    shared_cfg = shared_model = None
    if plan["shared"] and any(j["kind"] in ("spectrum", "spectrum_grad", "eps") for j in plan["threads"]):
        shared_cfg = mkcfg(plan["threads"][0]["spec"])
        if any(j["kind"] in ("eps", "train") for j in plan["threads"]):
            shared_model = make_model(plan["threads"][0]["spec"])
        full(shared_cfg)
    jobs = [prepare(j, shared_cfg, shared_model, W, i) for i, j in enumerate(plan["threads"])]
    O.scramble(3)
    total = {"lines": 0, "preempts": 0, "trace": []}
    for r, rnd in enumerate(plan["rounds"]):
        one_round(plan["threads"], jobs, base, sites, rnd, W, total)
    seeds = sorted([1 + j["seed"] for j in plan["threads"] if j["kind"] == "save"] * len(plan["rounds"]))
    if seeds:
        d = os.path.join(W.root, "results", "t")
        got = []
        for f in sorted(RAW["listdir"](d)):
            try:
                got.append(nidn().load_run(os.path.join(d, f)).seed)
            except Exception as e:
                raise Violation("concurrent-save", "a run saved concurrently cannot be loaded: %r" % e)
        if sorted(got) != seeds:
            raise Violation("concurrent-save", "saved concurrently %s, found %s" % (seeds, sorted(got)))
    return dict(nontrivial=total["preempts"] >= 2, probes={"preemptions": total["preempts"], "shared_cfg": int(shared_cfg is not None), "schedules": len(plan["rounds"])}, steps=total["lines"], sched=canon_hash(str(total["trace"])))


def one_round(specs, jobs, base, sites, rnd, W, total):
    br = {}
    for tid, frac, occ, hold, heat in rnd["breaks"]:
        tid %= len(jobs)
        q = sites[tid][heat] or sites[tid][0]
        if q:
            br.setdefault(tid, {}).setdefault(q[min(len(q) - 1, int(frac * len(q)))], []).append((occ, hold))
    s = Scheduler(jobs, rnd["switches"], W, br)
    res = s.run()
    kinds = [x["kind"] for x in specs]
    for i, (st, val) in enumerate(res):
        if st == "exc":
            if numeric_abort(val):
                raise val
            raise Violation("concurrent-exception", "%s in thread %d of %d failed only when interleaved: %r" % (kinds[i], i, len(res), val))
        if json.dumps(val, sort_keys=True) != json.dumps(base[i], sort_keys=True):
            raise Violation("interference", "%s in thread %d of %d (%s): %s differ from the evaluation alone" % (kinds[i], i, len(res), kinds, diff_keys(canon(val), canon(base[i]))))
    # what is left behind must not disturb later evaluations either
    for i in list(range(len(jobs)))[:: rnd["again"]] if rnd["again"] else []:
        if kinds[i] in ("spectrum", "eps", "materials", "grid"):
            val = jobs[i]()
            if json.dumps(val, sort_keys=True) != json.dumps(base[i], sort_keys=True):
                raise Violation("interference", "%s after concurrent evaluations (%s): %s differ from the evaluation alone" % (kinds[i], kinds, diff_keys(canon(val), canon(base[i]))))
    total["lines"] += s.lines
    total["preempts"] += s.preempts
    total["trace"] += s.trace
    W.ev("threads", json.dumps([r[1] for r in res], sort_keys=True, default=str), s.lines, str(s.trace))
