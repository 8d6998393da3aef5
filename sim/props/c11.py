"""C11: the batch runner keeps every configuration's results, complete and apart, whatever fails."""
import json
import os
import runpy
import sys

import matplotlib.pyplot as plt
import toml

from ..core import Violation, HarnessError, isolated, restart, REPO
from ..figs import capture
from ..seams import SimCrash, W, REAL as RAW
from ..trace import LineInjector, in_pkg
from ..util import nidn, mkcfg, canon, canon_hash, state_of, tree, diff_keys

QUICK = dict(runs=140, budget=110)
THOROUGH = dict(runs=20000, budget=1500)
RUN_LIMIT = 200
RULE = (
    "a run writes a folder of seeded configurations (some sharing a name, some broken) and starts the batch runner script once or several times, "
    "under permuted directory order, stalled/jumping clocks, disk errors, interrupts and process death at seeded points; the stored results are "
    "compared with those of each configuration run alone in a pristine process; non-trivial if more than one configuration was run; distinct by event-log digest"
)
REAL = ["batch runner script", "training", "networks", "TRCWA", "material data base", "save_run/load_run", "all plots (figure construction)"]
STUB = ["figure rasterisation (the plotted data is written instead of pixels)", "disk faults, directory order, process death, clock"]
SCHED_MEASURE = "distinct sequences of (batch, fault, outcome)"
ASSUMPTIONS = ["a name is a plain file name", "configurations of a batch are distinct"]

ERRORS = {e.__name__: e for e in (RuntimeError, ValueError, MemoryError, KeyError, TypeError)}
PLOTTING = ("plots/", "training/save_run")
SCRIPT = os.path.join(REPO, "nidn", "scripts", "run_cfgs.py")


def gen(rng, tier, idx):
    n = rng.choice([1, 2, 2, 3, 3] if tier == "quick" or rng.random() < 0.97 else [11])
    cfgs = []
    names = ["alpha", "beta", "gamma", "delta"] + ["n%d" % i for i in range(n)]
    rng.shuffle(names)
    same = rng.random() < 0.35
    for i in range(n):
        s = {
            "name": names[0] if same and rng.random() < 0.7 else names[i],
            "model_type": rng.choice(["siren", "siren", "nerf", "voxel"]),
            "seed": 10 + rng.randrange(1000) * 4 + i,
            "N_freq": rng.choice([1, 2, 2, 4]),
            "N_layers": rng.choice([1, 2]),
            "iterations": rng.choice([1, 1, 2]),
            "add_noise": rng.random() < 0.15,
            "noise_scale": 0.01,
        }
        if s["model_type"] != "voxel" and rng.random() < 0.25:
            s["type"] = "classification"
        if rng.random() < 0.12:
            s["broken"] = rng.choice(["toml", "invalid", "unreadable"])
        cfgs.append(s)
    batches = []
    for b in range(rng.choice([1, 1, 2, 2, 3] if tier == "quick" else [1, 2, 3, 4])):
        f = None
        if rng.random() < 0.7:
            f = rng.choice(
                [
                    {"op": "line", "frac": rng.random(), "kind": rng.choice(["crash", "interrupt"])},
                    {"op": "line", "frac": 0.9 + 0.1 * rng.random(), "kind": rng.choice(["crash", "interrupt"])},
                    {"op": "line", "frac": rng.random(), "kind": rng.choice(["RuntimeError", "ValueError", "MemoryError", "KeyError", "TypeError"])},
                    {"op": "wopen", "at": rng.randrange(0, 7 * n), "kind": rng.choice(["ENOSPC", "EACCES", "EMFILE", "crash"])},
                    {"op": "write", "file": rng.randrange(0, 7 * n), "byte": rng.randrange(3000), "kind": rng.choice(["ENOSPC", "EIO", "crash", "interrupt"])},
                    {"op": "mkdir", "at": rng.randrange(0, 3 * n), "kind": rng.choice(["ENOSPC", "EACCES", "crash"])},
                    {"op": "ropen", "at": rng.randrange(0, 12), "kind": rng.choice(["EIO", "ENOENT"])},
                ]
            )
        batches.append({"fault": f, "order": rng.randrange(1 << 30), "clock": rng.choice([[0.0], [0.0], [1.0], [0.4], [5.0, -5.0], [0.0, -3600.0]]), "gap": rng.choice([0.0, 0.0, 5.0, -3600.0])})
    return {"cfgs": cfgs, "batches": batches}


def valid(plan):
    return len(plan["cfgs"]) >= 1 and len(plan["batches"]) >= 1


class CrashAt(LineInjector):
    """the process dies at a line: nothing reaches the disk afterwards"""

    def local(self, frame, event, arg):
        try:
            r = super().local(frame, event, arg)
        except SimCrash:
            W.dead = True
            raise
        return self.local if r else None


class Counter(LineInjector):
    """counts all lines, and those of storing and plotting"""

    p = 0

    def local(self, frame, event, arg):
        n = self.n
        super().local(frame, event, arg)
        if self.n > n and in_pkg(frame.f_code.co_filename).startswith(PLOTTING):
            self.p += 1
        return self.local


# ------------------------------------------------------------------ driving the script
def write_cfgs(plan, folder, only=None):
    os.makedirs(folder, exist_ok=True)
    for i, s in enumerate(plan["cfgs"]):
        if only is not None and i != only:
            continue
        s = dict(s)
        br = s.pop("broken", None)
        c = mkcfg(s)
        d = {k: v for k, v in c.toDict().items()}
        if br == "invalid":
            d["iterations"] = "many"
        with RAW["open"](os.path.join(folder, "c%d.toml" % i), "w") as fh:
            fh.write(toml.dumps(d))
            if br == "toml":
                fh.write("\n= = what")


def start(folder):
    """one process running the script; returns how it ended"""
    argv = sys.argv
    path = list(sys.path)
    sys.argv = ["run_cfgs.py", folder]
    try:
        runpy.run_path(SCRIPT, run_name="__main__")
        return ("ok", None)
    except SystemExit as e:
        return ("ok", None) if not e.code else ("failed", "exit %r" % (e.code,))
    except SimCrash:
        return ("crash", None)
    except BaseException as e:
        return ("failed", "%s: %s" % (type(e).__name__, str(e)[:200]))
    finally:
        sys.argv = argv
        sys.path[:] = path
        plt.close("all")


def value(c):
    v = {str(k): canon(x) for k, x in c.items() if k not in ("model", "material_collection")}
    v["_model"] = canon(state_of(c.model))
    if "material_collection" in c:
        m = c.material_collection
        v["_mat"] = [list(m.material_names), canon(m.epsilon_matrix)]
    return v


def stored(root):
    """folder -> (runs readable in it, {other file -> content hash}, unreadable run files)"""
    out = {}
    for rel, h in tree(root).items():
        d, f = os.path.split(rel)
        e = out.setdefault(d, dict(runs=[], files={}, torn=0))
        if f.endswith(".pk"):
            try:
                e["runs"].append(value(nidn().load_run(os.path.join(root, rel))))
            except Exception:
                e["torn"] += 1
        else:
            e["files"][f] = h
    return out


def alone(plan, i, root):
    """what the script stores for one configuration, alone in a pristine process"""
    W.arm([])
    W.order_seed = None
    W.clock_steps = [0.0]
    os.makedirs(os.path.join(root, "work"), exist_ok=True)
    os.chdir(os.path.join(root, "work"))
    f = os.path.join(root, "cfgs")
    write_cfgs(plan, f, only=i)
    cnt = Counter()
    if any(b["fault"] and b["fault"]["op"] == "line" for b in plan["batches"]):
        sys.settrace(cnt)
    try:
        st = start(f)
    finally:
        sys.settrace(None)
    if plan["cfgs"][i].get("broken") in ("toml", "invalid"):
        return dict(status=st[0], lines=cnt.n, plines=cnt.p)
    if st[0] != "ok":
        raise Violation("runner", "the batch runner failed on a valid configuration: %s" % (st[1],))
    s = stored(os.path.join(root, "results"))
    full = [x for x in s.values() if x["runs"]]
    if len(full) != 1 or len(full[0]["runs"]) != 1:
        raise Violation("runner", "one configuration stored %d runs" % sum(len(x["runs"]) for x in s.values()))
    return dict(status="ok", value=full[0]["runs"][0], files=full[0]["files"], lines=cnt.n, plines=cnt.p)


def run(plan, W):
    W.capture_fig = capture
    data = os.path.join(os.path.dirname(nidn().__file__), "materials", "data")
    W.read_roots = (data,)
    base = []
    for i in range(len(plan["cfgs"])):
        b = isolated(alone, plan, i, os.path.join(W.root, "alone%d" % i))
        if plan["cfgs"][i].get("broken") in ("toml", "invalid") and b["status"] == "ok":
            raise Violation("broken-accepted", "a broken configuration file (%s) was reported as run" % plan["cfgs"][i]["broken"])
        base.append(b)
    for i, b in enumerate(base):
        if "value" in b and len(b["files"]) < 6:
            raise Violation("plots", "only %s stored next to the run" % sorted(b["files"]))
    folder = os.path.join(W.root, "cfgs")
    write_cfgs(plan, folder)
    results = os.path.join(W.root, "results")
    total = sum(b["lines"] for b in base)
    done = {}  # batch-> {cfg: folder}
    sched = []
    probes = {}
    kept = {}
    for bi, b in enumerate(plan["batches"]):
        W.clock_steps = list(b["clock"]) or [0.0]
        W.now += b["gap"]
        W.order_seed = b["order"]
        f = b["fault"]
        unread = [i for i, s in enumerate(plan["cfgs"]) if s.get("broken") == "unreadable"]
        arm = []
        if f and f["op"] != "line":
            arm.append(f)
        W.arm(arm)
        tr = None
        if f and f["op"] == "line":
            if f["kind"] in ERRORS:
                # something inside storing or plotting a run fails
                tr = LineInjector(1 + int(f["frac"] * sum(b["plines"] for b in base)), ERRORS[f["kind"]]("simulated failure"), prefixes=PLOTTING)
            else:
                cls = LineInjector if f["kind"] == "interrupt" else CrashAt
                exc = KeyboardInterrupt("simulated ^C") if f["kind"] == "interrupt" else SimCrash("line")
                tr = cls(1 + int(f["frac"] * total), exc)
        hide = []
        for i in unread:
            p = os.path.join(folder, "c%d.toml" % i)
            hide.append((p, p + ".away"))
        for p, q in hide:
            # a dangling link: listed, but not readable
            if not os.path.islink(p):
                RAW["rename"](p, q)
                os.symlink("/nonexistent/x.toml", p)
        try:
            if tr:
                sys.settrace(tr)
            try:
                end = start(folder)
            finally:
                sys.settrace(None)
        finally:
            W.disarm()
        if tr and tr.fired:
            W.fire("line_" + f["kind"])
        fault_hit = bool(tr and tr.fired) or any(x.get("done") for x in W.faults) or end[0] == "crash"
        W.ev("batch", bi, end[0])
        # the process is gone; look at the disk from a new one
        if end[0] == "crash" or W.dead:
            W.fire("process_restart")
        restart()
        now = tree(results)
        for p, h in kept.items():
            if now.get(p) != h:
                raise Violation("results-lost", "batch %d %s %s, stored by an earlier batch" % (bi, "removed" if p not in now else "overwrote", p))
        s = stored(results)
        judge(plan, base, s, bi, end, f, probes)
        kept = now
        sched.append((bi, f and (f["op"], f["kind"]), end[0]))
        probes["batch_" + end[0]] = probes.get("batch_" + end[0], 0) + 1
    W.ev("end", canon_hash(sorted((k.count("/"), len(v["runs"]), len(v["files"])) for k, v in s.items())))
    return dict(nontrivial=len(plan["cfgs"]) > 1, probes=probes, steps=len(plan["cfgs"]) * len(plan["batches"]), sched=str(sched))


_seen = {}


def judge(plan, base, s, bi, end, fault, probes):
    """every folder holds at most one run; every readable run is that of one configuration;
    a batch that ended well stored every configuration completely"""
    complete = {i: 0 for i in range(len(base))}
    for d, e in s.items():
        if len(e["runs"]) + e["torn"] > 1:
            raise Violation("shared-folder", "folder %s holds %d runs: their plots overwrite each other" % (d, len(e["runs"]) + e["torn"]))
        for v in e["runs"]:
            m = [i for i, b in enumerate(base) if "value" in b and b["value"] == v]
            if not m:
                same = [i for i, b in enumerate(base) if "value" in b and b["value"].get("seed") == v.get("seed")]
                dk = diff_keys(v, base[same[0]]["value"]) if same else "its seed"
                raise Violation("wrong-result", "the run stored in %s differs in %s from the configuration run alone" % (d, dk))
            i = m[0]
            ok = True
            for f, h in base[i]["files"].items():
                if e["files"].get(f) is None:
                    ok = False
                elif e["files"][f] != h:
                    if end[0] == "ok" and fault is None and len(plan["batches"]) == 1:
                        raise Violation("wrong-plot", "%s/%s differs from the configuration run alone" % (d, f))
                    ok = False
            if ok:
                complete[i] += 1
    if end[0] == "ok":
        for i, b in enumerate(base):
            br = plan["cfgs"][i].get("broken")
            if br:
                raise Violation("silent-failure", "the batch ended without an error although configuration %d (%s) could not be run" % (i, br))
            prev = _seen.get(i, 0)
            if complete[i] <= prev:
                raise Violation("missing-result", "the batch ended without an error, but configuration %d has no complete results of this batch" % i)
        probes["complete_batches"] = probes.get("complete_batches", 0) + 1
    elif fault is None and not any(c.get("broken") for c in plan["cfgs"]):
        raise Violation("runner", "the batch runner failed without a fault: %s" % (end[1],))
    _seen.clear()
    _seen.update(complete)
