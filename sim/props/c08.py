"""C08: the material data base returns the tabulated material, in any environment, or an error."""
import os

import numpy as np
import torch

from ..core import Violation, isolated
from ..seams import REAL as RAW
from ..util import nidn, mkcfg, canon
from ..trace import LineInjector

QUICK = dict(runs=900, budget=50)
THOROUGH = dict(runs=100000, budget=1500)
RUN_LIMIT = 120
RULE = (
    "a run builds a seeded history of material collections, layers and material look-ups with other frequencies and exclusions, under "
    "permuted directory order and injected read faults (open errors, EIO at a byte, short reads, failing enumeration, interrupts); every "
    "collection is compared, when built and again at the end, with an independent parser of the data files; non-trivial if a fault or "
    "permutation was applied; distinct by event-log digest"
)
REAL = ["MaterialCollection", "LayerBuilder", "pandas CSV reader", "closest-material search"]
STUB = ["directory enumeration order and read results of the data files"]
SCHED_MEASURE = "distinct sequences of (operation, fault, directory permutation)"


def gen(rng, tier, idx):
    steps = []
    for _ in range(rng.randrange(1, 5 if tier == "quick" else 9)):
        m = rng.choice([1, 1, 2, 3, 6, 6, 40])
        fr = [rng.choice([rng.uniform(0.03, 0.3), rng.uniform(0.3, 1.0), rng.uniform(1.0, 5.0), 1.0, 40.0, 0.001]) for _ in range(m)]
        if m > 1 and rng.random() < 0.4:  # close together
            f0, w = rng.uniform(0.2, 4.0), rng.choice([0.001, 0.01, 0.05])
            fr = [f0 * (1 + rng.uniform(0, w)) for _ in range(m)]
        s = {
            "op": rng.choice(["collection"] * 5 + ["layers", "layers", "train_cls"]),
            "fr": [round(f, 6) for f in fr],
            "as": rng.choice(["list", "array"]),
            "skip": rng.choice([0, 0, 0, 1, 2, 9]),
            "r": rng.randrange(1 << 30),
            "order": rng.randrange(1 << 30) if rng.random() < 0.8 else None,
            "fault": None,
        }
        if rng.random() < 0.4:
            s["fault"] = rng.choice(
                [
                    {"op": "ropen", "at": rng.randrange(10), "kind": rng.choice(["EIO", "EMFILE", "EACCES", "ENOENT"])},
                    {"op": "read", "file": rng.randrange(10), "kind": "EIO", "byte": rng.randrange(20000)},
                    {"op": "read", "file": rng.randrange(10), "kind": "short", "chunk": rng.choice([7, 100, 1000]), "sticky": rng.random() < 0.3},
                    {"op": "scandir", "at": 0, "kind": rng.choice(["EIO", "EACCES"])},
                    {"op": "line", "frac": rng.random(), "kind": "interrupt"},
                ]
            )
        steps.append(s)
    return {"steps": steps}


# ------------------------------------------------------------------ reference
_ref = {}


def table():
    """own reading of the data files of the tree under test"""
    if _ref:
        return _ref
    d = os.path.join(os.path.dirname(nidn().__file__), "materials", "data")
    for f in sorted(RAW["listdir"](d)):
        if not f.endswith(".csv"):
            continue
        with RAW["open"](os.path.join(d, f), "r", encoding="utf-8") as fh:
            lines = [l.rstrip("\r\n") for l in fh]
        head = lines[0].split("\t")
        iw, i_n, ik = head.index("Wavelength"), head.index("n"), head.index("k")
        rows = []
        for l in lines[1:]:
            if l.strip():
                p = l.split("\t")
                rows.append((float(p[iw]), float(p[i_n]), float(p[ik])))
        _ref[f[: -len(".csv")]] = rows
    return _ref


def allowed(name, f):
    rows = table()[name]
    wl = 1.0 / f
    d = min(abs(w - wl) for w, _, _ in rows)
    return [complex(n * n - k * k, 2 * n * k) for w, n, k in rows if abs(w - wl) <= d + 1e-9 * max(1.0, wl)]


def check(m, fr, skip, what):
    names = list(m.material_names)
    want = [n for n in sorted(table()) if n not in (skip or [])]
    if sorted(names) != want:
        raise Violation("wrong-materials", "%s: offers %s instead of %s" % (what, sorted(names), want))
    if m.N_materials != len(want):
        raise Violation("wrong-count", "%s: N_materials=%r for %d materials" % (what, m.N_materials, len(want)))
    e = m.epsilon_matrix
    if list(e.shape) != [len(want), len(fr)]:
        raise Violation("wrong-shape", "%s: matrix shape %s for %d materials and %d frequencies" % (what, list(e.shape), len(want), len(fr)))
    for i, n in enumerate(names):
        row = m[n]
        for j, f in enumerate(fr):
            got = complex(row[j])
            if complex(e[i, j]) != got:
                raise Violation("lookup", "%s: look-up of %s differs from its row" % (what, n))
            ok = allowed(n, f)
            if not any(abs(got - o) <= 1e-9 * max(1.0, abs(o)) for o in ok):
                raise Violation("wrong-value", "%s: %s at wavelength %.5g is %r, tabulated %r" % (what, n, 1.0 / f, got, ok[:3]))
    for bad in (skip or []) + ["unobtainium"]:
        try:
            m[bad]
        except KeyError:
            continue
        raise Violation("lookup", "%s: look-up of absent material %r succeeded" % (what, bad))
    return names


def freq_arg(s):
    if s["as"] == "array":
        return np.array(s["fr"])
    return list(s["fr"])


def op(s, W):
    import random

    skip = random.Random(s["r"]).sample(sorted(table()), s["skip"]) if s["skip"] else None
    n = nidn()
    if s["op"] == "collection":
        m = n.MaterialCollection(freq_arg(s), to_skip=skip)
        return ("collection", m, list(s["fr"]), skip)
    if s["op"] == "layers":
        c = mkcfg({"Nx": 5, "Ny": 5, "N_freq": len(s["fr"])})
        c.target_frequencies = np.array(s["fr"])
        b = n.LayerBuilder(c)
        mats = random.Random(s["r"]).sample(sorted(table()), 2)
        u = b.build_uniform_layer(mats[0])
        q = b.build_circle_layer(mats[0], mats[1], radius=0.4)
        z = b.build_squared_layer(mats[1], mats[0], a=0.3)
        if s["r"] % 3 == 0:
            # the user changes a layer of his own
            b.build_uniform_layer(mats[0]).mul_(0)
            b.build_circle_layer(mats[0], mats[1]).mul_(2)
        return ("layers", (b, [(u, mats[:1], (0, 0)), (q, mats, (0, 1)), (z, mats, (1, 0))], mats), list(s["fr"]), None)
    if s["op"] == "train_cls":
        c = mkcfg({"type": "classification", "N_freq": min(3, len(s["fr"])), "iterations": 1, "seed": s["r"] % 1000})
        n.run_training(c)
        return ("collection", c.material_collection, [float(f) for f in c.target_frequencies], None)


def judge(r, what):
    kind, m, fr, skip = r
    if kind == "collection":
        return check(m, fr, skip, what)
    b, layers, mats = m
    check(b.material_collection, fr, None, what)

    def is_(t, x, y, mat):
        return all(any(abs(complex(t[x, y, j]) - o) <= 1e-9 * max(1, abs(o)) for o in allowed(mat, f)) for j, f in enumerate(fr))

    for t, allow, (corner, centre) in layers:
        n, k = t.shape[0], t.shape[0] // 2
        for x in range(n):
            for y in range(t.shape[1]):
                if not any(is_(t, x, y, mat) for mat in allow):
                    raise Violation("layer-value", "%s: point (%d,%d) of a layer of %s has none of its permittivities" % (what, x, y, allow))
        if not is_(t, 0, 0, mats[corner]) or not is_(t, k, k, mats[centre]):
            raise Violation("layer-value", "%s: a layer of %s with %s in its middle has them elsewhere" % (what, mats[corner], mats[centre]))
    return None


def run(plan, W):
    import sys

    W.read_roots = (os.path.join(os.path.dirname(nidn().__file__), "materials", "data"),)
    table()
    probes, sched, kept = {}, [], []
    order = None
    for i, s in enumerate(plan["steps"]):
        W.order_seed = s["order"]
        f = s["fault"]
        what = "step %d (%s)" % (i, s["op"])
        inj = None
        if f and f["op"] == "line":
            def dry():
                t = LineInjector(prefixes=("materials",))
                sys.settrace(t)
                try:
                    op(s, W)
                finally:
                    sys.settrace(None)
                return t.n

            n = isolated(dry)
            inj = LineInjector(1 + int(f["frac"] * max(0, n - 1)), KeyboardInterrupt("simulated ^C"), ("materials",))
        elif f:
            W.arm([f])
        exc = r = None
        try:
            if inj:
                sys.settrace(inj)
            try:
                r = op(s, W)
            finally:
                sys.settrace(None)
        except (Exception, KeyboardInterrupt) as e:
            exc = e
        fired = (inj is not None and inj.fired) or any(x.get("done") or x["op"] == "read" for x in W.faults)
        W.disarm()
        sched.append((s["op"], f and f["kind"], s["order"]))
        if exc is not None:
            if not fired:
                raise exc
            if f["kind"] == "short":
                raise Violation("short-read", "%s: a short read made loading fail: %r" % (what, exc))
            probes["reported_failures"] = probes.get("reported_failures", 0) + 1
            W.ev("step", i, "error", type(exc).__name__)
            continue
        probes["results"] = probes.get("results", 0) + 1
        names = judge(r, what)
        if names and not r[3]:
            if order is not None and names != order:
                raise Violation("order", "%s: material order %s differs from the earlier %s; trained likelihoods would change meaning" % (what, names, order))
            order = names
        W.ev("step", i, "ok", names)
        kept.append((what, r))
    for what, r in kept:
        judge(r, what + ", re-read at the end")
    return dict(nontrivial=any(s["fault"] or s["order"] is not None for s in plan["steps"]), probes=probes, steps=len(plan["steps"]), sched=str(sched))
