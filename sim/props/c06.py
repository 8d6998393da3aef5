"""C06: saved runs are durable, distinct and faithful; failures are reported."""
import os

import numpy as np
import torch
from dotmap import DotMap

from ..core import Violation, isolated, restart
from ..seams import SimCrash
from ..util import nidn, mkcfg, freqs, canon, canon_hash, tree, state_of
from .. import ops as O

QUICK = dict(runs=900, budget=55)
THOROUGH = dict(runs=200000, budget=1500)
RUN_LIMIT = 120
RULE = (
    "a run is a seeded history of saves (several runs, names, sub folders), loads, process crashes and restarts under clock stalls, "
    "forward and backward jumps and injected disk faults (open errors, ENOSPC/EIO at a byte, short writes, interrupt or crash at a byte); "
    "non-trivial if at least two saves were attempted and a fault, clock irregularity or restart occurred; distinct by event-log digest"
)
REAL = ["save_run", "load_run", "pickle", "trained run configurations with networks, logs and material data"]
STUB = ["clock, file objects under the scratch folder (byte-level faults), process death (module purge and re-import)"]
SCHED_MEASURE = "distinct sequences of operations, faults and clock steps"
ASSUMPTIONS = ["bytes handed to the operating system survive a process crash; bytes still buffered in the process do not"]

NAMES = ["run", "run", "run", "a b", "run_2", "räst.x", "0", "x" * 60]
SUBS = ["", "", "s1", "s1", "s1/", "deep/er/s2", "s 3"]
SPECS = [
    {},
    {"model_type": "nerf"},
    {"model_type": "voxel", "N_layers": 2},
    {"type": "classification", "N_freq": 2},
    {"seed": 3, "iterations": 2, "learning_rate": 0.05},
    "long",  # a run with long records and entries of the user
    None,  # an untrained configuration
]


def gen(rng, tier, idx):
    steps = []
    for _ in range(rng.randrange(2, 9 if tier == "quick" else 20)):
        k = rng.choice(["save"] * 6 + ["load", "load", "load", "restart", "mutate", "crash_save", "delete"])
        s = {"op": k}
        if k in ("save", "crash_save"):
            s.update(spec=rng.randrange(len(SPECS)), name=rng.choice(NAMES), sub=rng.choice(SUBS), fault=None)
            if k == "crash_save":
                s["op"] = "save"
                s["fault"] = rng.choice(
                    [{"op": "write", "file": 0, "kind": "crash", "frac": rng.random()}, {"op": "wopen", "at": 0, "kind": "crash"}, {"op": "mkdir", "at": 0, "kind": "crash"}]
                )
            elif rng.random() < 0.4:
                s["fault"] = rng.choice(
                    [
                        {"op": "write", "file": 0, "kind": rng.choice(["ENOSPC", "EIO"]), "frac": rng.random()},
                        {"op": "write", "file": 0, "kind": "interrupt", "frac": rng.random()},
                        {"op": "write", "file": 0, "kind": "short", "chunk": rng.choice([5, 61, 4096, 100000])},
                        {"op": "wopen", "at": 0, "kind": rng.choice(["EACCES", "ENOSPC", "EMFILE", "interrupt"])},
                        {"op": "mkdir", "at": rng.randrange(2), "kind": rng.choice(["ENOSPC", "EACCES"])},
                        {"op": "rename", "at": 0, "kind": rng.choice(["EIO", "crash"])},
                    ]
                )
        elif k == "load":
            s["which"] = rng.random()
            s["spoil"] = rng.random() < 0.6
            s["fault"] = None
            if rng.random() < 0.4:
                s["fault"] = rng.choice(
                    [
                        {"op": "read", "file": 0, "kind": "EIO", "frac": rng.random()},
                        {"op": "read", "file": 0, "kind": "short", "chunk": rng.choice([3, 13, 500])},
                        {"op": "ropen", "at": 0, "kind": "EMFILE"},
                    ]
                )
        elif k == "mutate":
            s["spec"] = rng.randrange(len(SPECS) - 1)
        elif k == "delete":
            s["which"] = rng.random()
        steps.append(s)
    if rng.random() < 0.06:
        # many saves of the same name within a second
        nm, sb = rng.choice(NAMES), rng.choice(SUBS)
        steps = [dict(op="save", spec=6, name=nm, sub=sb, fault=None) for _ in range(rng.choice([12, 25, 105]))] + steps[:3]
        return {"steps": steps, "clock": [0.0], "start": 1_650_000_000.0}
    return {
        "steps": steps,
        "clock": [rng.choice([0.0, 0.0, 0.0, 0.2, 1.0, 1.0, 59.0, -1.0, -2.0, -3600.0, 86400.0]) for _ in range(rng.randrange(1, 6))],
        "start": rng.choice([1_650_000_000.0, 1_650_000_000.9, 1_640_995_199.0]),
    }


def make(i):
    """a run configuration; the same value every time"""
    if SPECS[i] is None:
        c = mkcfg({"seed": 99})
        return c
    c = mkcfg(dict(SPECS[i]) if SPECS[i] != "long" else {"N_layers": 3})
    nidn().run_training(c)
    if SPECS[i] == "long":
        for k in ("loss_log", "weighted_average_log", "L1_errs"):
            c.results[k] = [1.0 / (j + 1) for j in range(5000)]
        c.results.loss_log[77] = float("nan")
        c.notes = DotMap(who="me", when=None, tags=("a", 1), nested=DotMap(x=[1, 2, {"y": 3.5}]))
        c.reference = np.arange(3000.0).reshape(50, 60)
        c.extra_grid = torch.arange(2000, dtype=torch.float64)
    return c


def spoil(c):
    """what a user may do with a run of his own"""
    if "model" in c and c.model is not None:
        with torch.no_grad():
            for p in c.model.parameters():
                p.mul_(0.5)
    if "results" in c:
        c.results.loss_log.append(0.125)
    c.target_reflectance_spectrum[0] = 0.123
    c.learning_rate = 77.0
    c.my_own_note = "x"


def value(c):
    """everything a user can read from a run, including what its design evaluates to"""
    v = {str(k): canon(x) for k, x in c.items() if k not in ("model", "material_collection")}
    v["_keys"] = sorted(str(k) for k in c.keys())
    if "material_collection" in c:
        m = c.material_collection
        v["_mat"] = [list(m.material_names), canon(m.epsilon_matrix), canon(m.target_frequencies), m.N_materials]
    if "model" in c and c.model is not None:
        v["_model"] = [type(c.model).__name__, canon(state_of(c.model)), [p.requires_grad for p in c.model.parameters()]]
        with torch.no_grad():
            eps, _ = nidn().model_to_eps_grid(c.model, c)
        v["_eps"] = canon(eps)
    return canon_hash(v)


def _size(c, W):
    import pickle

    return len(pickle.dumps(c, protocol=pickle.HIGHEST_PROTOCOL))


def run(plan, W):
    res = os.path.join(W.root, "results")
    W.now = plan["start"]
    W.clock_steps = list(plan["clock"]) or [0.0]
    live = {}
    saved = {}  # rel path -> (byte hash, value)
    junk = {}  # files left by failed saves: rel path -> the value they may hold
    probes = {}
    sched = []
    nsave = irregular = 0

    def get(i):
        if i not in live:
            live[i] = make(i)
        return live[i]

    def check_conserved(where):
        now = tree(res)
        for p, (h, v) in saved.items():
            if p not in now:
                raise Violation("lost", "%s: saved run %r disappeared" % (where, p))
            if now[p] != h:
                raise Violation("overwritten", "%s: saved run %r was changed after it had been saved" % (where, p))
        return now

    for n, s in enumerate(plan["steps"]):
        k = s["op"]
        if k == "save":
            nsave += 1
            c = get(s["spec"])
            c.name = s["name"]
            want = value(c)
            before = tree(res)
            f = dict(s["fault"]) if s["fault"] else None
            if f and "frac" in f:
                f["byte"] = int(f["frac"] * (_size(c, W) + 40))
            W.arm([f] if f else [])
            nf = sum(W.fired.values())
            exc = None
            try:
                nidn().save_run(c, s["sub"])
            except (SimCrash, Exception, KeyboardInterrupt) as e:
                exc = e
            fired = bool(f) and any(kk.startswith(f["op"]) for kk in W.fired) and any(
                x.get("done") or x.get("byte") == -1 for x in W.faults
            )
            W.disarm()
            crashed = W.dead
            if crashed:
                live = {}
                restart()
                probes["crash_restart"] = probes.get("crash_restart", 0) + 1
                irregular += 1
            sched.append("s%s%s%s" % (s["spec"], s["sub"], f and f["kind"]))
            now = check_conserved("save %d" % n)
            # a later save may reuse the place of a failed one
            new = [p for p in now if p not in before or (p in junk and now[p] != before[p])]
            W.ev("save", n, "exc" if exc is not None else "ok", sorted(new))
            if exc is None and not crashed:
                if not new:
                    raise Violation("nothing-saved", "save %d returned normally but no new file holds the run" % n)
                good = []
                for p in new:
                    if value_of_file(os.path.join(res, p)) == want:
                        good.append(p)
                if not good:
                    raise Violation("unfaithful", "save %d returned normally, but no new file loads to the saved run (%s)" % (n, new))
                sub = os.path.normpath(s["sub"]) if s["sub"] else "."
                here = [p for p in good if os.path.normpath(os.path.dirname(p) or ".") == sub]
                if not here:
                    raise Violation("wrong-place", "save %d into %r created %s" % (n, s["sub"], good))
                if not any(s["name"] in os.path.basename(p) for p in here):
                    raise Violation("wrong-name", "save %d of %r created %s" % (n, s["name"], here))
                for p in good:
                    junk.pop(p, None)
                    saved[p] = (now[p], want)
                if value(c) != want:
                    raise Violation("save-mutates", "save %d changed the run it saved" % n)
                probes["saves_ok"] = probes.get("saves_ok", 0) + 1
            else:
                if exc is not None and not fired and not crashed and not W.dead:
                    raise exc
                irregular += 1
                probes["saves_failed"] = probes.get("saves_failed", 0) + 1
                for p in new:
                    junk[p] = want
                    if not p.endswith("_run.pk"):
                        continue
                    try:
                        v = value_of_file(os.path.join(res, p))
                    except Exception:
                        probes["torn_files"] = probes.get("torn_files", 0) + 1
                        continue
                    if v != want:
                        raise Violation("torn-loads-wrong", "the file of failed save %d loads to something else" % n)
        elif k == "load":
            allp = sorted(saved)
            if not allp:
                continue
            p = allp[int(s["which"] * len(allp))]
            f = dict(s["fault"]) if s["fault"] else None
            full = os.path.join(res, p)
            if f and "frac" in f:
                f["byte"] = int(f["frac"] * os.path.getsize(full))
            W.arm([f] if f else [])
            exc = None
            try:
                c = nidn().load_run(full)
            except Exception as e:
                exc = e
            W.disarm()
            sched.append("l%s" % (f and f["kind"]))
            if exc is not None and (f is None or f["kind"] == "short"):
                raise Violation("cannot-load", "run %r saved successfully cannot be loaded: %r" % (p, exc))
            if exc is None and value(c) != saved[p][1]:
                raise Violation("loads-wrong", "run %r loads to a different run" % p)
            if exc is None and s.get("spoil"):
                spoil(c)  # it is a copy of its own
            irregular += bool(f)
            check_conserved("load %d" % n)
            W.ev("load", n, exc is None)
        elif k == "restart":
            live = {}
            restart()
            irregular += 1
            sched.append("r")
            W.fire("process_restart")
            check_conserved("restart %d" % n)
        elif k == "delete":
            # the user makes room; the place may be taken by another run
            allp = sorted(saved)
            if allp:
                p = allp[int(s["which"] * len(allp))]
                os.remove(os.path.join(res, p))
                del saved[p]
                sched.append("d")
                W.ev("delete", n)
        elif k == "mutate":
            # training on, and changing names, must not reach into saved files
            c = get(s["spec"])
            if "model" in c:
                with torch.no_grad():
                    for p in c.model.parameters():
                        p.mul_(0.5)
                c.results.loss_log.append(0.125)
            sched.append("m")
    # finally, in a fresh process, every successful save is there and faithful
    live = {}
    restart()
    check_conserved("end")
    for p, (h, v) in sorted(saved.items()):
        try:
            got = value_of_file(os.path.join(res, p))
        except Exception as e:
            raise Violation("cannot-load", "after restart run %r cannot be loaded: %r" % (p, e))
        if got != v:
            raise Violation("loads-wrong", "after restart run %r loads to a different run" % p)
    if any(d <= 0 for d in plan["clock"]):
        irregular += 1
    probes["distinct_files"] = len(saved)
    return dict(nontrivial=nsave >= 2 and irregular > 0, probes=probes, steps=len(plan["steps"]), sched=str(sched) + str(plan["clock"]))


def value_of_file(path):
    return value(nidn().load_run(path))
