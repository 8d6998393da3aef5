"""C14: a plot shows the data of the run it was asked for - all of it and nothing else - or reports an error."""
import os
import sys

import matplotlib.pyplot as plt
import numpy as np
import torch

from ..core import Violation, restart, numeric_abort
from ..figs import capture
from ..seams import SimCrash, W, REAL as RAW
from ..trace import LineInjector
from ..util import nidn, mkcfg, canon_hash, freqs
from .. import ops as O

QUICK = dict(runs=500, budget=100)
THOROUGH = dict(runs=60000, budget=1500)
RUN_LIMIT = 150
RULE = (
    "a run trains several configurations and then draws a seeded sequence of plots of them, interleaved with figures the user left open, closed or "
    "selected, plots that fail on injected disk errors, read errors or interrupts, weight changes and save/restart/load; the data found in every "
    "figure (lines, scatter values and positions, labels) is compared with values computed independently; "
    "non-trivial if a figure was checked after another figure or a failure; distinct by event-log digest"
)
REAL = ["all plot functions (figure construction)", "training", "networks", "TRCWA", "FDTD", "material data base", "save_run/load_run"]
STUB = ["figure rasterisation (the plotted data is written instead of pixels)", "disk and read faults, process death"]
SCHED_MEASURE = "distinct sequences of (plot, run, preceding disturbance, fault)"
ASSUMPTIONS = ["noise is off while plotting, so that the permittivity is a function of the run"]

PLOTS = ["losses", "spectra", "spectra_given", "model_grid", "per_freq", "per_freq_some", "material_grid", "material_grid_eps", "eps_per_point", "eps_per_point_mat", "eps_stored", "epsilon_grid", "spectrum", "spectrum_abs"]


def gen(rng, tier, idx):
    runs = []
    for i in range(rng.choice([1, 2, 2, 3])):
        fd = rng.random() < 0.05
        if runs and rng.random() < 0.5:
            s = O.twin(rng, runs[0])
            fd = s.get("solver") == "FDTD"
            s["add_noise"] = False
            if rng.random() < 0.5:
                s["seed"] = 10 * rng.randrange(1, 900) + i
            runs.append(s)
            continue
        s = O.tame_cfg(rng, "FDTD" if fd else None)
        s["add_noise"] = False
        s["seed"] = 10 * rng.randrange(1, 900) + i
        if not fd:
            O.set_nfreq(s, rng.choice([1, 2, 3, 4, 5]))
            if rng.random() < 0.3 and s["model_type"] != "voxel":
                s["Nx"], s["Ny"] = rng.choice([(2, 2), (4, 2), (2, 4)])
                O.coarse(s)
            if rng.random() < 0.12:
                O.set_nfreq(s, rng.choice([8, 12, 30]))
                s["N_layers"] = rng.choice([1, 5, 11, 14])
                s.pop("PER_LAYER_THICKNESS", None)
                if s.get("Nx", 1) > 1:
                    O.set_nfreq(s, 8)
                    s["N_layers"] = 2
            if rng.random() < 0.1 and s["model_type"] != "voxel":  # many cells
                s["Nx"], s["Ny"], s["N_layers"] = rng.choice([(2, 2, 4), (4, 2, 2), (4, 4, 1)])
                s.pop("PER_LAYER_THICKNESS", None)
                O.coarse(s)
                O.set_nfreq(s, 2)
            if s["type"] == "regression" and rng.random() < 0.25:  # metals
                s["real_min_eps"], s["imag_min_eps"] = rng.choice([-12.0, -4.0]), 0.3
        s["iterations"] = rng.randrange(1, 4)
        runs.append(s)
    ops = []
    for _ in range(rng.randrange(2, 7 if tier == "quick" else 16)):
        k = rng.choice(["plot"] * 8 + ["all"] + ["junk", "junk", "select", "close", "weights", "reload", "train", "long"])
        o = {"op": k, "run": rng.randrange(len(runs)), "r": rng.randrange(1 << 30), "fault": None}
        if k == "plot":
            o["plot"] = rng.choice(PLOTS)
            o["show"] = rng.random() < 0.15
        if k in ("plot", "all") and rng.random() < 0.3:
            o["fault"] = rng.choice(
                [
                    {"op": "wopen", "at": rng.choice([0, 0, 2, 5]) if k == "all" else 0, "kind": rng.choice(["ENOSPC", "EACCES", "EMFILE"])},
                    {"op": "write", "file": rng.choice([0, 1, 3, 5]) if k == "all" else 0, "byte": rng.randrange(500), "kind": rng.choice(["ENOSPC", "EIO", "interrupt"])},
                    {"op": "ropen", "at": rng.randrange(10), "kind": "EIO"},
                    {"op": "line", "frac": rng.random(), "kind": "interrupt"},
                    {"op": "line", "frac": rng.random(), "kind": "interrupt"},
                ]
            )
        ops.append(o)
        if k == "plot" and rng.random() < 0.25:  # the run goes on and is plotted the same way again
            ops.append({"op": rng.choice(["train", "train", "weights", "reload"]), "run": o["run"], "r": rng.randrange(1 << 30), "fault": None})
            ops.append(dict(o, fault=None))
        if k == "long":
            ops.append({"op": "plot", "plot": "losses", "show": False, "run": o["run"], "r": o["r"], "fault": None})
    return {"cfgs": runs, "ops": ops}


def valid(plan):
    n = len(plan["cfgs"])
    return n >= 1 and all(o["run"] < n for o in plan["ops"])


# ------------------------------------------------------------------ reference
class Ref:
    """everything a plot may show, computed from the run by public means and own formulas"""

    def __init__(self, c):
        n = nidn()
        self.c = c
        with torch.no_grad():
            self.eps = n.model_to_eps_grid(c.model, c)[0].detach().to(torch.complex128).numpy()
        self._spec = None
        self.f = np.array(c.target_frequencies, dtype=float)
        self.wl = 1.0 / self.f

    def spectra(self):
        if self._spec is None:
            with torch.no_grad():
                e, _ = nidn().model_to_eps_grid(self.c.model, self.c)
                R, T = nidn().compute_spectrum(e, self.c)
            self._spec = np.array([float(x) for x in R]), np.array([float(x) for x in T])
        return self._spec

    def closest(self, eps=None, skip=()):
        eps = self.eps if eps is None else eps
        m = nidn().MaterialCollection(self.f)
        names = [x for x in m.material_names if x not in skip]
        d = np.stack([np.abs(eps - np.array(m[x])).mean(axis=3) for x in names], -1)
        srt = np.sort(d, -1)
        clear = (srt[..., 1] - srt[..., 0]) > 1e-9 * (1 + srt[..., 0])
        return names, d.argmin(-1), clear, m

    def points(self, vals):
        nx, ny, nz = vals.shape
        lin = lambda k: np.linspace(-1, 1, k) if k > 1 else np.array([-1.0])
        X, Y, Z = lin(nx), lin(ny), lin(nz)
        return {(round(X[i], 6), round(Y[j], 6), round(Z[k], 6)): float(vals[i, j, k]) for i in range(nx) for j in range(ny) for k in range(nz)}


def near(a, b, tol=1e-6):
    return len(a) == len(b) and all(abs(x - y) <= tol * (1 + abs(y)) or (x != x and y != y) for x, y in zip(a, b))


def bad(what, msg):
    raise Violation("wrong-data", "%s: %s" % (what, msg))


def scatter_axes(cap):
    return [a for a in cap if a["scatters"]]


def check_points(what, ax, vals, ref):
    if len(ax["scatters"]) != 1:
        bad(what, "%d point clouds in one axes" % len(ax["scatters"]))
    s = ax["scatters"][0]
    want = ref.points(vals)
    xs, ys, zs = s["xyz"]
    if s["v"] is None or len(s["v"]) != len(want) or len(xs) != len(want):
        bad(what, "%d points drawn for %d cells" % (len(xs), len(want)))
    for x, y, z, v in zip(xs, ys, zs, s["v"]):
        w = want.get((round(x, 6), round(y, 6), round(z, 6)))
        if w is None:
            bad(what, "a point at %s belongs to no cell" % ((x, y, z),))
        if abs(v - w) > 1e-5 * (1 + abs(w)):
            bad(what, "the cell at %s shows %.6g, the run has %.6g" % ((x, y, z), v, w))
    zt = ax.get("zticks")
    if zt is not None:
        lab = {round(float(p), 6): t for p, t in zt}
        nz = vals.shape[2]
        pos = np.linspace(-1, 1, nz)
        for k in range(nz):
            if lab.get(round(float(pos[k]), 6)) != "L%d" % (k + 1):
                bad(what, "layer %d is labelled %r" % (k + 1, lab.get(round(float(pos[k]), 6))))


def in_view(what, ax):
    """no curve leaves the axes to the left or to the right"""
    lo, hi = sorted(ax["xlim"])
    tol = 1e-6 * (abs(lo) + abs(hi))
    for l in ax["lines"]:
        xs = [x for x in l["x"] if x == x]
        if xs and (min(xs) < lo - tol or max(xs) > hi + tol):
            bad(what, "the axes show %s only, the data reaches from %g to %g" % (ax["xlim"], min(xs), max(xs)))


def by_label(what, ax, extra=0):
    lg = ax["legend"]
    if not lg or len(lg) != len(ax["lines"]) - extra:
        bad(what, "%d curves for %s legend entries" % (len(ax["lines"]), lg and len(lg)))
    return dict(zip(lg, ax["lines"]))


def check_spectra(what, cap, ref, R, T, target=True):
    c = ref.c
    want = {"Reflectance": (R, c.target_reflectance_spectrum), "Transmittance": (T, c.target_transmittance_spectrum)}
    if sorted(a["ylabel"] for a in cap) != sorted(want):
        bad(what, "axes %s" % [a["ylabel"] for a in cap])
    for a in cap:
        prod, targ = want[a["ylabel"]]
        d = by_label(what, a)
        in_view(what, a)
        if set(d) != {"Target " + a["ylabel"], "Produced " + a["ylabel"]}:
            bad(what, "curves %s" % list(d))
        for lab, y in (("Target ", targ), ("Produced ", prod)):
            l = d[lab + a["ylabel"]]
            if not near(l["x"], ref.wl) or not near(l["y"], y, 1e-5):
                bad(what, "%s%s is not that of the run" % (lab, a["ylabel"]))
        err = float(np.mean(np.abs(np.array(targ) - np.array(prod))))
        t = [x for x in a["texts"] if "L1 Error" in x]
        if len(t) != 1 or abs(float(t[0].split("=")[1]) - err) > 1.01e-4:
            bad(what, "reports %s, the error is %.6f" % (t, err))


def check_eps_lines(what, cap, ref, eps, given):
    c = ref.c
    axr = [a for a in cap if "Real" in a["ylabel"]]
    axi = [a for a in cap if "Imag" in a["ylabel"]]
    if len(cap) != 2 or len(axr) != 1 or len(axi) != 1:
        bad(what, "axes %s" % [a["ylabel"] for a in cap])
    pts = [(x, y, z) for x in range(eps.shape[0]) for y in range(eps.shape[1]) for z in range(eps.shape[2])]
    m = nidn().MaterialCollection(ref.f)
    if given is None:
        names, ids, clear, _ = ref.closest(eps)
        must = {names[i] for i in ids[clear]}
        may = {names[i] for i in ids.ravel()}
        if not clear.all():
            may = set(names)
    else:
        must = may = set(given)
    for a, part in ((axr[0], "real"), (axi[0], "imag")):
        in_view(what, a)
        solid = [l for l in a["lines"] if l["ls"] == "-"]
        dash = [l for l in a["lines"] if l["ls"] != "-"]
        want = sorted(tuple(getattr(eps[p], part)) for p in pts)
        got = sorted(tuple(l["y"]) for l in solid)
        if len(got) != len(want) or not all(near(g, w, 1e-5) for g, w in zip(got, want)):
            bad(what, "the %s curves are not those of the run" % part)
        if not all(near(l["x"], ref.wl) for l in a["lines"]):
            bad(what, "wrong wavelengths")
        shown = {t.strip() for t in a["texts"]}
        if not (must <= shown <= may) or len(dash) != len(shown):
            bad(what, "materials %s shown, closest are %s" % (sorted(shown), sorted(must)))
        wantm = sorted(tuple(float(getattr(x, part)) for x in m[nm]) for nm in shown)
        gotm = sorted(tuple(l["y"]) for l in dash)
        if not all(near(g, w, 1e-6) for g, w in zip(gotm, wantm)):
            bad(what, "material curves are not the tabulated ones")
    if axr[0]["legend"]:
        d = dict(zip(axr[0]["legend"], axr[0]["lines"]))
        for x, y, z in pts:
            l = d.get("Layer %d - (x,y)=(%d,%d)" % (z, x, y))
            if l is None or not near(l["y"], eps[x, y, z].real, 1e-5):
                bad(what, "the curve labelled as layer %d, (%d,%d) is not that of this cell" % (z, x, y))


def of_materials(c, r):
    """permittivities, in half of the cases those of different materials of the data base, nearly"""
    e = O.some_eps(c, r)
    if r & 16:
        m = nidn().MaterialCollection(np.array(c.target_frequencies, dtype=float))
        g = np.random.RandomState(r % (1 << 31))
        names = list(m.material_names)
        g.shuffle(names)
        i = 0
        for x in range(e.shape[0]):
            for y in range(e.shape[1]):
                for z in range(e.shape[2]):
                    e[x, y, z] = torch.tensor(np.array(m[names[i % len(names)]]) + 1e-3 * g.rand())
                    i += 1
    return e


# ------------------------------------------------------------------ plots: (draw, check, file)
def some(o, n, k):
    import random

    return random.Random(o["r"]).sample(range(n), k)


def make(name, o, c, ref):
    n = nidn()
    nf = c.N_freq
    g = np.random.RandomState(o["r"] % (1 << 31))
    if name == "losses":

        def check(what, cap):
            d = by_label(what, cap[0])
            in_view(what, cap[0])
            want = {"L1": c.results.L1_errs, "Loss": c.results.loss_log, "Weighted Average Loss": c.results.weighted_average_log}
            if set(d) != set(want) or len(cap) != 1:
                bad(what, "curves %s" % list(d))
            for k, y in want.items():
                if not near(d[k]["y"], [float(v) for v in y], 1e-9) or d[k]["x"] != [float(i) for i in range(len(y))]:
                    bad(what, "the %s curve is not that of the run" % k)

        return lambda p: n.plot_losses(c, save_path=p), check, "losses.png"
    if name == "spectra":
        return lambda p: n.plot_spectra(c, save_path=p), lambda w, cap: check_spectra(w, cap, ref, *ref.spectra()), "spectra_comparison.png"
    if name == "spectra_given":
        R, T = g.rand(nf) * 0.5, g.rand(nf) * 0.5
        fn = [None, "mine"][o["r"] % 2]
        mk = bool(o["r"] & 2)
        more = {}
        if o["r"] & 12 == 12:  # an unphysical spectrum, with room for it
            R, T = R * 3.4 - 0.2, T * 3.4 - 0.2
            more = {"ylim": [[-0.3, 1.6], [-0.4, 1.7]]}
        return (
            lambda p: n.plot_spectra(c, save_path=p, prod_R_spectrum=torch.tensor(R), prod_T_spectrum=torch.tensor(T), filename=fn, markers=mk, **more),
            lambda w, cap: check_spectra(w, cap, ref, R, T),
            (fn or "spectra_comparison") + ".png",
        )
    if name in ("model_grid", "epsilon_grid"):
        if name == "model_grid":
            v = np.abs(ref.eps.mean(axis=3))
            draw = lambda p: n.plot_model_grid(c, save_path=p)
            e2 = None
        else:
            e2 = O.some_eps(c, o["r"])
            v = np.sqrt((np.abs(e2.numpy()) ** 2).sum(axis=3))
            draw = lambda p: n.plot_epsilon_grid(e2, c, save_path=p)

        def check(what, cap):
            a = scatter_axes(cap)
            if len(a) != 1:
                bad(what, "%d grids drawn" % len(a))
            check_points(what, a[0], v, ref)

        return draw, check, "model_grid.png" if name == "model_grid" else "eps_grid.png"
    if name in ("per_freq", "per_freq_some"):
        idx = list(range(min(4, nf)))
        if name == "per_freq_some":
            idx = some(o, nf, min(nf, 1 + o["r"] % 4))

        def check(what, cap):
            a = scatter_axes(cap)
            if len(a) != 2 * len(idx):
                bad(what, "%d grids drawn for %d frequencies" % (len(a), len(idx)))
            for i, fi in enumerate(idx):
                for j, part in enumerate(("real", "imag")):
                    ax = a[2 * i + j]
                    v = getattr(ref.eps, part)
                    nxt = cap[cap.index(ax) + 1 : cap.index(ax) + 2]
                    lab = nxt[0]["ylabel"].lower() if nxt and not nxt[0]["scatters"] else ""
                    if lab and ({"real": "imag", "imag": "real"}[part] in lab):
                        bad(what, "the %s part is labelled %r" % (part, nxt[0]["ylabel"]))
                    check_points(what + " frequency %d %s" % (fi, part), ax, v[..., fi], ref)
                    t = "WL=%sum" % round(ref.wl[fi], 2)
                    if ax["title"] != t:
                        bad(what, "title %r instead of %r" % (ax["title"], t))
                    lo, hi = float(v.min()), float(v.max())
                    if hi - lo > 1e-6 * (1 + abs(hi)) and not near(ax["scatters"][0]["clim"], [lo, hi], 1e-5):
                        bad(what, "colour range %s instead of %s" % (ax["scatters"][0]["clim"], [lo, hi]))

        return (
            (lambda p: n.plot_model_grid_per_freq(c, save_path=p)) if name == "per_freq" else (lambda p: n.plot_model_grid_per_freq(c, freq_idx=idx, save_path=p)),
            check,
            "model_grid_per_freq.png",
        )
    if name in ("material_grid", "material_grid_eps"):
        e2 = of_materials(c, o["r"]) if name == "material_grid_eps" else None
        err = name == "material_grid_eps" and bool(o["r"] & 4)
        skip = None
        if o["r"] & 8 and o["op"] == "plot":
            ms = list(nidn().MaterialCollection(ref.f).material_names)
            skip = [ms[i] for i in some(o, len(ms), 1 + o["r"] % 4)]

        def check(what, cap):
            eps = ref.eps if e2 is None else e2.numpy()
            names, ids, clear, m = ref.closest(eps, skip or ())
            a = scatter_axes(cap)
            if len(a) != (2 if err else 1):
                bad(what, "%d grids drawn" % len(a))
            cb = [x for x in cap if x.get("colorbar_ticks")]
            if not cb:
                bad(what, "no material names")
            lab = {int(round(p)): t for p, t in cb[0]["colorbar_ticks"]}
            pts = ref.points(ids.astype(float))
            okp = ref.points(clear.astype(float))
            s = a[0]["scatters"][0]
            if len(s["v"]) != len(pts):
                bad(what, "%d points for %d cells" % (len(s["v"]), len(pts)))
            for x, y, z, v in zip(*s["xyz"], s["v"]):
                key = (round(x, 6), round(y, 6), round(z, 6))
                if key not in pts:
                    bad(what, "a point belongs to no cell")
                if okp[key] and lab.get(int(round(v))) != names[int(pts[key])]:
                    bad(what, "cell %s shown as %s, closest is %s" % (key, lab.get(int(round(v))), names[int(pts[key])]))
            if err:
                d = np.stack([np.abs(eps - np.array(m[x])).mean(axis=3) for x in names], -1).min(-1)
                check_points(what + " error", a[1], d, ref)

        return (
            (lambda p: n.plot_material_grid(c, save_path=p, to_skip=skip)) if e2 is None else (lambda p: n.plot_material_grid(c, save_path=p, eps=e2, plot_error=err, to_skip=skip)),
            check,
            "material_grid.png",
        )
    if name in ("eps_per_point", "eps_per_point_mat", "eps_stored"):
        given = None
        fid = [None, "x7"][o["r"] % 2]
        if name == "eps_per_point_mat":
            ms = list(nidn().MaterialCollection(ref.f).material_names)
            given = [ms[i] for i in some(o, len(ms), 1 + o["r"] % 3)]
        if name == "eps_stored":
            e2 = of_materials(c, o["r"])
            c2 = c.copy()
            c2.eps = e2
            return lambda p: n.plot_eps_per_point(c2, save_path=p, file_id=fid), lambda w, cap: check_eps_lines(w, cap, ref, e2.numpy(), None), "eps_per_points%s.png" % fid
        arg = given[0] if given and len(given) == 1 and o["r"] & 4 else given
        return (
            lambda p: n.plot_eps_per_point(c, compare_to_material=arg, save_path=p, file_id=fid, legend=bool(o["r"] & 8)),
            lambda w, cap: check_eps_lines(w, cap, ref, ref.eps, given),
            "eps_per_points%s.png" % fid,
        )
    if name in ("spectrum", "spectrum_abs"):
        R, T = g.rand(nf) * 0.5, g.rand(nf) * 0.5
        ab = name == "spectrum_abs"

        def check(what, cap):
            want = {"Reflectance": R, "Transmittance": T}
            if ab:
                want["Absorptance"] = 1 - R - T
            if sorted(a["ylabel"] for a in cap) != sorted(want):
                bad(what, "axes %s" % [a["ylabel"] for a in cap])
            for a in cap:
                if len(a["lines"]) != 1 or not near(a["lines"][0]["x"], ref.wl) or not near(a["lines"][0]["y"], want[a["ylabel"]], 1e-9):
                    bad(what, "the %s curve is not the given one" % a["ylabel"])

        return lambda p: n.plot_spectrum(c, list(R), list(T), save_path=p, show_absorption=ab), check, "spectrum.png"
    raise KeyError(name)


ALL = ["spectra", "losses", "model_grid", "per_freq", "material_grid", "eps_per_point"]


def traced(fn, tr):
    if tr is None:
        return fn()
    sys.settrace(tr)
    try:
        return fn()
    finally:
        sys.settrace(None)


def complete(path):
    try:
        with RAW["open"](path, "rb") as fh:
            return fh.read().endswith(b":END")
    except OSError:
        return False


def run(plan, W):
    W.capture_fig = capture
    data = os.path.join(os.path.dirname(nidn().__file__), "materials", "data")
    n = nidn()
    cs, refs = [], []
    for s in plan["cfgs"]:
        c = mkcfg(s)
        n.run_training(c)
        cs.append(c)
        refs.append(Ref(c))
    W.read_roots = (data,)
    probes = {}
    sched = []
    disturbed = 0
    checked = 0
    for i, o in enumerate(plan["ops"]):
        k = o["op"]
        c = cs[o["run"]]
        n = nidn()
        W.ev(i, k, o.get("plot"), o["run"])
        sched.append((k, o.get("plot"), o["run"], o["fault"] and (o["fault"]["op"], o["fault"]["kind"])))
        if k == "junk":
            f = plt.figure()
            ax = f.add_subplot(111)
            ax.plot([0.0, 1.0], [float(o["r"] % 100), 123.0], label="junk")
            disturbed += 1
            W.fire("foreign_figure")
            continue
        if k == "select":
            nums = plt.get_fignums()
            if nums:
                plt.figure(nums[o["r"] % len(nums)])
                W.fire("figure_selected")
                disturbed += 1
            continue
        if k == "close":
            nums = plt.get_fignums()
            if nums:
                plt.close(nums[o["r"] % len(nums)])
                W.fire("figure_closed")
            continue
        if k == "weights":
            from ..train import fill

            fill(c.model, o["r"], 0.2)
            refs[o["run"]] = Ref(c)
            continue
        if k == "train":
            c.iterations = 1 + o["r"] % 2
            n.run_training(c)
            refs[o["run"]] = Ref(c)
            continue
        if k == "long":
            # the records of a long training
            g = np.random.RandomState(o["r"] % (1 << 31))
            m = [1, 25, 250, 1100, 2500][o["r"] % 5]
            for q in ("loss_log", "weighted_average_log", "L1_errs"):
                c.results[q].extend(float(v) for v in g.rand(m))
            W.fire("long_records")
            continue
        if k == "reload":
            n.save_run(c, "p%d" % i)
            W.fire("process_restart")
            restart()
            d = os.path.join(W.root, "results", "p%d" % i)
            cs[o["run"]] = nidn().load_run(os.path.join(d, RAW["listdir"](d)[0]))
            # other runs of this process are gone with it
            for j in range(len(cs)):
                if j != o["run"]:
                    cs[j] = mkcfg(plan["cfgs"][j])
                    nidn().run_training(cs[j])
            refs = [Ref(x) for x in cs]
            continue
        out = os.path.join(W.root, "plots%d" % i)
        os.makedirs(out, exist_ok=True)
        ref = refs[o["run"]]
        todo = [make(x, dict(o, r=o["r"] & ~1), c, ref) for x in ALL] if k == "all" else [make(o["plot"], o, c, ref)]
        if k == "all":
            draw = lambda: n.save_all_plots(c, out)
        elif o["show"]:
            draw = lambda: todo[0][0](None)
        else:
            draw = lambda: todo[0][0](out)
        f = o["fault"]
        tr = None
        if f and f["op"] == "line":
            cnt = LineInjector()
            figs0 = plt.get_fignums()
            traced(draw, cnt)
            for x in plt.get_fignums():
                if x not in figs0:
                    plt.close(x)
            for x in RAW["listdir"](out):
                RAW["unlink"](os.path.join(out, x))
            tr = LineInjector(1 + int(f["frac"] * cnt.n), KeyboardInterrupt("simulated ^C"))
        W.figures.clear()
        W.arm([f] if f and f["op"] != "line" else [])
        fired0 = sum(W.fired.values())
        exc = None
        try:
            traced(draw, tr)
        except (OSError, KeyboardInterrupt) as e:
            exc = e
        finally:
            W.disarm()
        hit = bool(tr and tr.fired) or (f is not None and sum(W.fired.values()) > fired0)
        if tr and tr.fired:
            W.fire("plot_interrupted")
        what = "op %d: %s of run %d" % (i, o.get("plot", "all plots"), o["run"])
        if exc is not None:
            if not hit:
                raise exc
            disturbed += 1
            probes["failed_plots"] = probes.get("failed_plots", 0) + 1
            W.ev("failed", type(exc).__name__)
        files = {os.path.basename(p): (p, cap) for p, cap in W.figures}
        if k == "plot" and o["show"]:
            if exc is None:
                todo[0][1](what, capture(plt.gcf()))
                checked += 1
            continue
        want = [t[2] for t in todo]
        if exc is None:
            # returned without an error: every plot is there, complete
            for w in want:
                if w not in files or not complete(os.path.join(out, w)):
                    raise Violation("incomplete", "%s returned without an error, but %s is missing or incomplete" % (what, w))
        stray = [p for p, _ in W.figures if os.path.dirname(os.path.abspath(p)) != out]
        if stray:
            raise Violation("stray-file", "%s wrote %s" % (what, stray))
        for draw_, check, w in todo:
            if w in files and complete(os.path.join(out, w)):
                check(what + " (%s)" % w, files[w][1])
                checked += 1
        probes["figures_checked"] = checked
        if disturbed:
            probes["checked_after_disturbance"] = probes.get("checked_after_disturbance", 0) + 1
    W.ev("end", checked)
    return dict(nontrivial=checked > 0 and (disturbed > 0 or checked > 1), probes=probes, steps=len(plan["ops"]), sched=str(sched))
