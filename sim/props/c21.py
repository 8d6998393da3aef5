"""C21: an RCWA solver object answers from its present structure and excitation alone."""
import copy
import json
import math
import sys
from importlib import import_module

import torch

from ..core import Violation, Pristine, numeric_abort
from ..sched import Scheduler
from ..trace import LineInjector
from ..util import nidn, canon, canon_hash, diff_keys, close
from .. import ops as O

QUICK = dict(runs=900, budget=50)
THOROUGH = dict(runs=60000, budget=1500)
RUN_LIMIT = 120
RULE = (
    "a run sets up 1-3 RCWA solvers (uniform and patterned layers, lattices, angles) and drives them through a seeded history of new "
    "permittivities, new excitations, queries, gradients, copies, threaded queries, interrupts at an executed line and NaN inputs; every "
    "answer is compared bitwise with that of a solver of its own in a pristine process given only the latest permittivities and excitation; "
    "non-trivial if at least two answers were compared; distinct by event-log digest"
)
REAL = ["RCWA solver (TRCWA), lattice, Fourier and linear algebra helpers", "torch autograd"]
STUB = ["thread scheduler", "delivery point of the interrupt"]
SCHED_MEASURE = "distinct histories of solver operations as executed"
ASSUMPTIONS = ["volume integrals of uniform layers and layers given by Fourier series are left out: both are unfinished in the code"]


def gen_solver(r):
    layers = [["u", 0.4, r.choice([1.0, 2.25])]]
    cells = r.choice([12, 12, 16])
    for _ in range(r.choice([1, 1, 2, 3])):
        if r.random() < 0.75:
            layers.append(["g", round(r.uniform(0.1, 0.8), 3)])
        else:
            layers.append(["u", round(r.uniform(0.1, 0.8), 3), round(r.uniform(1.5, 6), 3)])
    layers.append(["u", 0.4, r.choice([1.0, 2.25])])
    return {
        "ng": r.choice([5, 7, 9, 11]),
        "lat": r.choice(O.LATTICES),
        "freq": round(r.uniform(0.2, 2.0), 3),
        "q": r.choice([0, 1e5]),
        "theta": r.choice([0.0, 0.0, 0.3]),
        "phi": r.choice([0.0, 0.0, 0.5]),
        "cells": cells,
        "layers": layers,
        "pscale": r.choice([1.0, 1.0, 1.3]),
    }


def gen_eps(r):
    # few different ones, so that the same permittivities come back
    return {"seed": r.choice([1, 2, 3, r.randrange(1 << 20)]), "zf": r.choice([0.9, 0.9, 1.2]), "form": r.choice(["grid", "grid", "flat", "aniso"]), "kind": r.choice(["random", "block", "uniform"])}


def gen_exc(r):
    return {
        "p": r.choice([1.0, 0.0, 0.6]), "pp": r.choice([0.0, 0.9]), "s": r.choice([0.0, 1.0, 0.3]), "sp": r.choice([0.0, 0.4]),
        "order": r.choice([0, 0, 0, 1]), "dir": r.choice(["forward", "forward", "backward"]),
    }


def gen(rng, tier, idx):
    n = rng.choice([1, 1, 2, 3])
    sol = [gen_solver(rng) for _ in range(n)]
    if n > 1 and rng.random() < 0.6:  # alike but for one thing
        sol[1] = json.loads(json.dumps(sol[0]))
        k = rng.choice(["freq", "lat", "theta", "phi", "thick", "pscale"])
        if k == "thick":
            sol[1]["layers"][1][1] = round(rng.uniform(0.1, 0.8), 3)
        else:
            sol[1][k] = gen_solver(rng)[k]
    ops = []
    for i in range(n):
        first = [{"do": "eps", "i": i, "eps": gen_eps(rng)}, {"do": "excite", "i": i, "exc": gen_exc(rng)}]
        if rng.random() < 0.3:
            first.reverse()
        ops += first
    for _ in range(rng.randrange(3, 10 if tier == "quick" else 24)):
        k = rng.choice(["solve"] * 6 + ["eps"] * 4 + ["excite"] * 4 + ["grad", "grad", "stop", "stop", "par", "par", "copy", "scribble", "nan", "other"])
        o = {"do": k, "i": rng.randrange(n), "r": rng.randrange(1 << 20)}
        if k in ("eps", "copy", "stop", "grad"):
            o["eps"] = gen_eps(rng)
        if k in ("excite", "copy"):
            o["exc"] = gen_exc(rng)
        if k == "stop":
            o["what"] = rng.choice(["eps", "solve"])
            o["at"] = int(math.exp(rng.uniform(0, math.log(250))))
        if k == "par":
            o["j"] = rng.randrange(n)
            o["switches"] = [[rng.randrange(2), int(math.exp(rng.uniform(0, math.log(150))))] for _ in range(rng.choice([2, 6, 20]))]
        ops.append(o)
        if k == "stop" and o["what"] == "eps" and rng.random() < 0.7:  # tried again
            ops.append({"do": "eps", "i": o["i"], "eps": o["eps"], "r": 0})
            ops.append({"do": "solve", "i": o["i"], "r": rng.randrange(1 << 20)})
        if k in ("eps", "excite", "nan") and rng.random() < 0.6:
            ops.append({"do": "solve", "i": o["i"], "r": rng.randrange(1 << 20)})
    return {"solvers": sol, "ops": ops}


def valid(plan):
    return all(o["i"] < len(plan["solvers"]) and o.get("j", 0) < len(plan["solvers"]) for o in plan["ops"])


def build(s):
    T = import_module("nidn.trcwa.trcwa").TRCWA
    f = s["freq"] * (1 + (1j / (2.0 * s["q"]))) if s["q"] else s["freq"] + 0j
    o = T(s["ng"], s["lat"][0], s["lat"][1], f, s["theta"], s["phi"], verbose=0)
    for l in s["layers"]:
        if l[0] == "u":
            o.Add_LayerUniform(l[1], torch.tensor(l[2] + 0j))
        else:
            o.Add_LayerGrid(torch.tensor(l[1]), s["cells"], s["cells"])
    o.Init_Setup(Pscale=s["pscale"], Gmethod=0)
    return o


def n_grid(s):
    return sum(1 for l in s["layers"] if l[0] == "g")


def make_eps(s, e):
    """permittivities of the patterned layers, in one of the accepted forms"""
    g = torch.Generator().manual_seed(e["seed"])
    c = s["cells"]
    out = []
    # the grid form is indexed by the place of the layer among all of them
    grid = e["form"] == "grid"
    for k, l in enumerate(s["layers"][1:-1] if grid else [x for x in s["layers"] if x[0] == "g"]):
        if e["kind"] == "random":
            x = 1.5 + 5 * torch.rand((c, c), generator=g, dtype=torch.float64)
        elif e["kind"] == "block":
            x = torch.ones((c, c), dtype=torch.float64) * 1.5
            x[2:2 + int(torch.randint(2, 8, (1,), generator=g)), 3:9] = 6.0
        else:
            x = torch.ones((c, c), dtype=torch.float64) * float(1.5 + 5 * torch.rand((1,), generator=g))
        out.append(torch.complex(x, 0.1 * torch.rand((c, c), generator=g, dtype=torch.float64)))
    if not out:
        return None
    if grid:
        return torch.stack(out, dim=2)
    if e["form"] == "aniso":
        v = torch.cat([x.reshape(-1) for x in out])
        return torch.stack([v, 1.1 * v, e.get("zf", 0.9) * v])
    return torch.cat([x.reshape(-1) for x in out])


def give(o, s, e):
    x = make_eps(s, e)
    if x is not None:
        o.GridLayer_geteps(x)
    return x


def excite(o, x):
    o.MakeExcitationPlanewave(x["p"], x["pp"], x["s"], x["sp"], order=x["order"] % o.nG, direction=x["dir"])


def ask(o, r):
    """one of the questions a solver answers, chosen by r; a list of tensors"""
    kind = (r >> 4) % 16
    k = (r >> 8) % o.Layer_N
    z = [0.0, 0.07, 0.2][(r >> 12) % 3]
    if kind < 8:
        return list(o.RT_Solve(normalize=r % 2, byorder=(r // 2) % 2))
    if kind == 8:
        return list(o.GetAmplitudes_noTranslate(k))
    if kind == 9:
        return list(o.GetAmplitudes(k, z))
    if kind == 10:
        return [x for eh in o.Solve_FieldFourier(k, [z, 0.1] if r % 2 else z) for f in eh for x in f]
    if kind in (11, 12):
        return [x for f in o.Solve_FieldOnGrid(k, z, [6, 5]) for x in f]
    if kind == 13:
        return list(o.Solve_ZStressTensorIntegral(k))
    if kind == 14:
        return [o.Return_eps(k, 6, 6, ["xx", "xy", "yx", "yy", "zz"][r % 5])]
    if o.id_list[k][0] == 1:
        M = torch.eye(o.nG, dtype=torch.complex128)
        return [o.Volume_integral(k, M, 2 * M, M, normalize=r % 2)]
    return list(o.RT_Solve(normalize=r % 2))


def alone(s, e, x, r):
    o = build(s)
    give(o, s, e)
    excite(o, x)
    return [canon(v + 0.0) for v in ask(o, r)]


def gradient(o, s, e):
    x = make_eps(s, e)
    if x is None or not n_grid(s) or e["form"] == "flat":  # (the flat form is detached by the solver)
        return None
    x = x.requires_grad_(True)
    o.GridLayer_geteps(x)
    R, T = o.RT_Solve(normalize=1)
    return canon(torch.autograd.grad(torch.real(R) + 0.5 * torch.real(T), x)[0])


def alone_grad(s, e, x):
    o = build(s)
    excite(o, x)
    return gradient(o, s, e)


class Sol:
    def __init__(self, s):
        self.s = s
        self.o = build(s)
        self.eps = self.exc = None  # what was given last; None: undefined
        self.given = None

    def ready(self):
        return self.exc is not None and (self.eps is not None or n_grid(self.s) == 0)


def run(plan, W):
    pristine = Pristine()
    T = [Sol(s) for s in plan["solvers"]]
    kept = []
    hist = []
    probes = {"answers": 0, "interrupted": 0, "preemptions": 0}

    def judge(t, got, r, why):
        ref = pristine(alone, t.s, t.eps or {"seed": 0, "form": "grid", "kind": "random"}, t.exc, r)
        if json.dumps(ref) != json.dumps([canon(v.detach() + 0.0) for v in got]):
            raise Violation("stale-answer", "%s: reflectance/transmittance differ from those of a new solver with the same structure and excitation" % why)
        probes["answers"] += 1
        kept.append((got, canon_hash([canon(v.detach()) for v in got])))

    for o in plan["ops"]:
        t = T[o["i"]]
        k = o["do"]
        if k == "eps":
            t.given = give(t.o, t.s, o["eps"])
            t.eps = o["eps"]
            if t.given is not None and canon_hash(canon(t.given)) != canon_hash(canon(make_eps(t.s, o["eps"]))):
                raise Violation("input-changed", "the permittivities given to the solver were changed by it")
        elif k == "excite":
            excite(t.o, o["exc"])
            t.exc = o["exc"]
        elif k == "scribble":
            if t.given is not None:
                with torch.no_grad():
                    t.given.mul_(1.7)
                t.given = None
                W.fire("input_reused")
        elif k == "nan":
            x = make_eps(t.s, {"seed": 1, "form": "grid", "kind": "random"})
            if x is not None:
                x[0, 0, 0] = float("nan")
                t.eps = None
                W.fire("nan_input")
                try:
                    t.o.GridLayer_geteps(x)
                except Exception:
                    pass
        elif k == "other":
            O.do_spectrum({"N_freq": 1, "TRCWA_NG": [3, 5, 7][o["r"] % 3]}, o["r"] % 1000)
        elif k == "stop":
            inj = LineInjector(o["at"], KeyboardInterrupt("simulated"), prefixes=("trcwa/",))
            if o["what"] == "solve" and not t.ready():
                continue
            try:
                sys.settrace(inj)
                try:
                    if o["what"] == "eps":
                        give(t.o, t.s, o["eps"])
                    else:
                        ask(t.o, o["r"])
                finally:
                    sys.settrace(None)
            except KeyboardInterrupt:
                W.fire("interrupt")
                probes["interrupted"] += 1
                hist.append(str(inj.where))
                if o["what"] == "eps" and n_grid(t.s):
                    t.eps = None
            else:
                if inj.fired:
                    raise Violation("stop-swallowed", "an interrupt of the solver did not reach the caller")
                if o["what"] == "eps":
                    t.eps = o["eps"]
        elif not t.ready():
            continue
        elif k == "solve":
            judge(t, ask(t.o, o["r"]), o["r"], "solver %d" % o["i"])
        elif k == "grad":
            g = gradient(t.o, t.s, o["eps"])
            if g is not None:
                t.eps, t.given = o["eps"], None
                ref = pristine(alone_grad, t.s, t.eps, t.exc)
                if json.dumps(ref) != json.dumps(g):
                    raise Violation("stale-gradient", "the gradient differs from that of a new solver with the same structure and excitation")
        elif k == "copy":
            try:
                c = copy.deepcopy(t.o)
            except RuntimeError:  # torch does not copy what carries a gradient
                continue
            give(c, t.s, o["eps"])
            excite(c, o["exc"])
            ask(c, o["r"])
            judge(t, ask(t.o, o["r"]), o["r"], "solver %d after its copy was changed" % o["i"])
        elif k == "par":
            u = T[o["j"]]
            if not u.ready():
                continue
            s = Scheduler([lambda: ask(t.o, o["r"]), lambda: ask(u.o, o["r"] + 1)], o["switches"], W)
            res = s.run()
            probes["preemptions"] += s.preempts
            for st, val in res:
                if st == "exc":
                    if numeric_abort(val):
                        raise val
                    raise Violation("concurrent-exception", "asking two solvers at the same time failed: %r" % (val,))
            judge(t, res[0][1], o["r"], "solver %d asked while another thread asked solver %d" % (o["i"], o["j"]))
            judge(u, res[1][1], o["r"] + 1, "solver %d asked while another thread asked solver %d" % (o["j"], o["i"]))
        hist.append("%s:%d" % (k, o["i"]))
        for got, h in kept:
            if canon_hash([canon(v.detach()) for v in got]) != h:
                raise Violation("answer-changed", "a result returned earlier changed")
    for i, t in enumerate(T):
        if t.ready():
            judge(t, ask(t.o, 1), 1, "solver %d in the end" % i)
    W.ev("hist", " ".join(hist), canon_hash([h for _, h in kept]))
    return dict(nontrivial=probes["answers"] >= 2, probes=probes, steps=len(hist), sched=canon_hash(hist))
