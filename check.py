#!/opt/venv/bin/python
"""Run one property's simulation:  check.py C01 [--replay FILE] [--tier quick|thorough]"""
import argparse
import importlib
import json
import os
import subprocess
import sys
import time

for k, v in dict(
    OMP_NUM_THREADS="1",
    MKL_NUM_THREADS="1",
    MKL_DISABLE_FAST_MM="1",  # its per-thread lists do not survive a fork
    MKL_CBWR="COMPATIBLE",  # results do not depend on where memory lies
    OPENBLAS_NUM_THREADS="1",
    PYTHONDONTWRITEBYTECODE="1",
    MPLBACKEND="Agg",
    TORCH_DEVICE="cpu",
    CUDA_VISIBLE_DEVICES="",
    TZ="UTC",
    PYTHONWARNINGS="ignore",
).items():
    os.environ[k] = v
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from sim import core  # noqa: E402

REAL_POPEN = subprocess.Popen


def known_findings(pid):
    out = []
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as fh:
            for line in fh:
                line = line.strip()
                if line.startswith("known:") and ("property=%s " % pid) in line + " ":
                    d = dict(p.split("=", 1) for p in line.split() if "=" in p)
                    out.append((d.get("class"), d.get("key"), line))
    except FileNotFoundError:
        pass
    return out


def is_known(known, res):
    for cls, key, line in known:
        if cls == res.get("cls") and (key is None or key in res.get("msg", "")):
            return line
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 8))
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--digests", help="write idx->digest map (self test)")
    ap.add_argument("--one", type=int, help="run a single index in-process, print everything")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--no-min", action="store_true")
    ap.add_argument("--survey", action="store_true", help="do not stop at violations; list classes")
    a = ap.parse_args()
    pid = a.prop
    t0 = core.REAL_TIME()
    devnull = None
    try:
        core.import_libs()
        # import chatter of the library goes nowhere
        sys.stderr.flush()
        save = os.dup(2)
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 2)
        try:
            nidn = core.import_nidn()
            core.quiet(nidn)
        finally:
            sys.stderr.flush()
            if not os.environ.get("VERIF_DEBUG"):
                os.dup2(save, 2)
            else:
                os.dup2(save, 2)
        prop = importlib.import_module("sim.props." + pid.lower())
        if hasattr(prop, "warm"):
            prop.warm()
    except core.Violation:
        raise
    except BaseException as e:
        import traceback

        traceback.print_exc()
        print("HARNESS-ERROR property=%s could not start: %r" % (pid, e))
        core.cleanup()
        return 2
    try:
        return go(a, pid, prop, t0)
    finally:
        core.cleanup()


def go(a, pid, prop, t0):
    seed = a.seed
    limit = getattr(prop, "RUN_LIMIT", 120)
    if a.one is not None:
        plan = prop.gen(core.rng_for(seed, pid, a.one), a.tier, a.one)
        print(json.dumps(plan, indent=1))
        os.environ["VERIF_DEBUG"] = "1"
        res = core.execute(prop, plan, os.path.join(core.scratch_base(), "one"))
        log = res.pop("log", [])
        for l in log:
            print("  ", l)
        tb = res.pop("tb", None)
        print(json.dumps(res, indent=1, default=str))
        if tb:
            print(tb)
        return 0
    if a.replay:
        with open(a.replay) as fh:
            doc = json.load(fh)
        pool = core.Pool(prop, 1, limit * 2)
        res = list(pool.map([(0, doc["plan"])]))[0][2]
        print(json.dumps({k: v for k, v in res.items() if k != "tb"}, default=str))
        if res.get("tb"):
            print(res["tb"])
        if res["status"] == "violation":
            print("REPLAYED class=%s" % res["cls"])
            print("VIOLATION property=%s replay=%s" % (pid, os.path.abspath(a.replay)))
            return 1
        return 0 if res["status"] == "ok" else 2

    cfg = dict(getattr(prop, a.tier.upper(), None) or prop.QUICK)
    runs = a.runs or cfg["runs"]
    budget = a.budget or cfg["budget"]
    known = known_findings(pid)
    pool = core.Pool(prop, a.workers, limit)
    agg = dict(fired={}, probes={}, sim_time=0.0, digests={}, nontrivial=set(), scheds=set(), samples=[], steps=0)
    viols, harness, timeouts, known_hits = [], [], [], {}
    n = 0
    tstart = core.REAL_TIME()

    def stop():
        return (bool(viols) and not a.survey) or len(harness) > 5 or core.REAL_TIME() - tstart > budget

    def items():
        for i in range(a.first, a.first + runs):
            yield i, prop.gen(core.rng_for(seed, pid, i), a.tier, i)

    for idx, plan, res in pool.map(items(), stop):
        n += 1
        for k, v in res.get("fired", {}).items():
            agg["fired"][k] = agg["fired"].get(k, 0) + v
        st = res.get("stats") or {}
        for k, v in (st.get("probes") or {}).items():
            agg["probes"][k] = agg["probes"].get(k, 0) + v
        agg["sim_time"] += res.get("sim_time", 0.0)
        agg["steps"] += st.get("steps", 0)
        agg["digests"][idx] = res.get("digest")
        if st.get("sched"):
            agg["scheds"].add(st["sched"])
        if res["status"] == "ok":
            if st.get("nontrivial", True):
                agg["nontrivial"].add(res["digest"])
            if len(agg["samples"]) < 3 and st.get("nontrivial", True):
                agg["samples"].append({"seed": seed, "run": idx, "plan": plan})
        elif res["status"] == "violation":
            line = is_known(known, res)
            if line:
                known_hits[line] = known_hits.get(line, 0) + 1
            else:
                viols.append((idx, plan, res))
        elif res["status"] == "timeout":
            timeouts.append((idx, plan, res))
        else:
            harness.append((idx, plan, res))
    explore_wall = core.REAL_TIME() - tstart

    # a run that used up its wall time is tried again alone, with three times the time
    for idx, plan, res in timeouts:
        if viols:
            break
        p1 = core.Pool(prop, 1, limit * 3)
        r = list(p1.map([(idx, plan)]))[0][2]
        if r["status"] == "violation":
            viols.append((idx, plan, r))
        elif r["status"] != "ok":
            harness.append((idx, plan, r))

    if a.digests:
        with open(a.digests, "w") as fh:
            json.dump({str(k): v for k, v in sorted(agg["digests"].items())}, fh, indent=0)

    if a.survey:
        byc = {}
        for idx, plan, res in viols + harness:
            byc.setdefault((res["status"], res.get("cls")), []).append((idx, res.get("msg", "")[:300]))
        for k, v in byc.items():
            print(k, len(v), "of", n, "first:", v[: int(os.environ.get("SURVEY_N", "3"))])
        if timeouts:
            print("timed out at first:", [x[0] for x in timeouts])
        print("faults:", json.dumps(agg["fired"], sort_keys=True))
        print("probes:", json.dumps(agg["probes"], sort_keys=True), "distinct", len(agg["nontrivial"]), "wall", round(explore_wall, 1))
        return 0
    rc = 0
    replay_path = None
    vio_info = None
    if viols:
        viols.sort(key=lambda x: x[0])
        for idx, plan, res in viols[:3]:
            replay_path, vio_info = report(a, pid, prop, seed, idx, plan, res, limit)
            if replay_path:
                rc = 1
                break
        if not replay_path:
            print("HARNESS-ERROR property=%s violation did not replay: %s" % (pid, viols[0][2].get("msg")))
            rc = 2
    elif harness:
        idx, plan, res = harness[0]
        print("HARNESS-ERROR property=%s run=%d %s\n%s" % (pid, idx, res.get("msg"), res.get("tb", "")))
        rc = 2
    for line in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, line[2].split("what=", 1)[-1]))

    wall = core.REAL_TIME() - t0
    ev = {
        "property": pid,
        "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": n,
            "distinct_nontrivial": len(agg["nontrivial"]),
            "rule": prop.RULE,
            "samples": agg["samples"],
            "simulated_runs": n,
            "seeds_per_hour": round(n / max(explore_wall, 1e-6) * 3600),
            "simulated_clock_seconds": round(agg["sim_time"], 3),
            "simulated_steps": agg["steps"],
            "faults_injected": agg["fired"],
            "probes": agg["probes"],
            "distinct_interleavings": len(agg["scheds"]),
            "distinct_event_logs": len(set(agg["digests"].values())),
            "interleaving_measure": getattr(prop, "SCHED_MEASURE", "hash of the operation/fault schedule as executed"),
            "components_real": prop.REAL,
            "components_stub": prop.STUB,
            "planned_runs": runs,
            "stopped_by_budget": n < runs and not viols,
        },
        "assumptions": getattr(prop, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(viols),
    }
    if vio_info:
        ev["coverage"]["violation"] = vio_info
    if not a.no_evidence:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        tmp = os.path.join(HERE, "evidence", pid + ".json.tmp")
        with open(tmp, "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        os.replace(tmp, os.path.join(HERE, "evidence", pid + ".json"))
    print(
        "property=%s tier=%s seed=%d runs=%d distinct=%d wall=%.1fs (explore %.1fs) rc=%d"
        % (pid, a.tier, seed, n, len(agg["nontrivial"]), wall, explore_wall, rc)
    )
    print("faults:", json.dumps(agg["fired"], sort_keys=True))
    print("probes:", json.dumps(agg["probes"], sort_keys=True))
    return rc


def report(a, pid, prop, seed, idx, plan, res, limit):
    """Minimise, write the replay file, confirm it in fresh processes, print VIOLATION."""
    print("found: run=%d class=%s %s" % (idx, res["cls"], res.get("msg", "")[:400]))
    if res.get("tb"):
        print(res["tb"][-1500:])
    small, tried = plan, 0
    if not a.no_min:
        small, tried = core.minimise(prop, plan, res["cls"], a.workers, limit, 60 if a.tier == "quick" else 240)
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-s%d-r%d.json" % (pid, seed, idx))
    for cand in ([small, plan] if small != plan else [plan]):
        with open(path, "w") as fh:
            json.dump(
                {"property": pid, "seed": seed, "run": idx, "class": res["cls"], "message": res.get("msg"), "plan": cand,
                 "shrink_steps_tried": tried},
                fh,
                indent=1,
            )
        ok = 0
        for _ in range(2):
            r = fresh_replay(pid, path)
            if ("REPLAYED class=%s" % res["cls"]) in r:
                ok += 1
                break
        if ok:
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return path, {"class": res["cls"], "message": res.get("msg"), "run": idx, "plan": cand, "shrink_tried": tried}
    return None, None


def fresh_replay(pid, path):
    """Replay in a fresh interpreter with another hash seed."""
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = "77"
    try:
        pr = REAL_POPEN(
            [sys.executable, os.path.abspath(__file__), pid, "--replay", path, "--no-evidence"],
            stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL,
            env=env,
        )
        out, _ = pr.communicate(timeout=400)
        return out.decode(errors="replace")
    except Exception as e:
        return "error %r" % e


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
