"""C03: stopping training at an arbitrary point keeps the best design found so far."""
import math

import torch

from ..core import Violation, isolated
from ..train import TrainSim, gen_cfg, gen_script
from ..trace import LineInjector
from ..util import nidn, same_state, finite_state, close, state_of, freqs, mkcfg

QUICK = dict(runs=500, budget=50)
THOROUGH = dict(runs=40000, budget=1500)
RUN_LIMIT = 120
RULE = (
    "a run is one training stopped by an exception (keyboard interrupt, MemoryError, RuntimeError) raised at a seeded random "
    "executed line of the library (uniform over the whole execution, or over the training loop's own lines), combined with the "
    "evaluation faults of C01, followed by a resumed training; non-trivial if the exception fired after at least one evaluation; "
    "distinct by event-log digest"
)
REAL = ["training loop", "networks", "TRCWA solver", "losses", "material data base", "torch optimiser/scheduler"]
STUB = ["none; the stop is injected with a line trace function"]
SCHED_MEASURE = "distinct (file, function, evaluation index) stop points"
EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "RuntimeError": RuntimeError}


def gen(rng, tier, idx):
    c = gen_cfg(rng, tier, allow_fdtd=False)
    n = rng.randrange(2, 8 if tier == "quick" else 16)
    c["iterations"] = n
    kinds = rng.choice([["jump"], ["jump", "gain"], ["jump", "nan_out", "nan_params", "nan_grad"]])
    if c.get("imag_min_eps", 0.0) >= 0.0:
        kinds = [k for k in kinds if k != "gain"]
    return {
        "cfg": c,
        "init_seed": rng.randrange(1 << 30),
        "init_scale": rng.choice([0.05, 0.3, 1.0]),
        "script": gen_script(rng, n, kinds, rng.choice([0.0, 0.3, 0.6]), c),
        "stop": {
            "exc": rng.choice(["KeyboardInterrupt"] * 3 + ["MemoryError", "RuntimeError"]),
            "where": rng.choice(["training", "training", "any"]),
            "frac": rng.random(),
        },
        "resume": rng.randrange(1, 4),
    }


def _prefix(plan):
    return ("training",) if plan["stop"]["where"] == "training" else None


def _dry(plan, W):
    t = TrainSim(plan, W)
    inj = LineInjector(prefixes=_prefix(plan))
    t.run(inj)
    return inj.n


def run(plan, W):
    log = list(W.log), dict(W.fired)
    total = isolated(_dry, plan, W)
    if total <= 0:
        plan = dict(plan, stop=dict(plan["stop"], where="any"))
        total = isolated(_dry, plan, W)
    k = 1 + int(plan["stop"]["frac"] * (total - 1))
    t = TrainSim(plan, W)
    exc = EXC[plan["stop"]["exc"]]("simulated stop")
    inj = LineInjector(k, exc, _prefix(plan))
    t.run(inj)
    if not inj.fired:
        return dict(nontrivial=False, probes={"not_reached": 1})
    W.fire("stop_" + plan["stop"]["exc"])
    W.ev("stopped", inj.where[0], inj.where[1], len(t.evs))
    if t.numeric_abort:
        return dict(nontrivial=False)
    if t.exc is None:
        raise Violation("stop-swallowed", "%s at %s did not stop training" % (plan["stop"]["exc"], inj.where))
    if t.exc is not exc and t.exc.__cause__ is not exc and t.exc.__context__ is not exc:
        raise Violation("stop-replaced", "injected %r, caller saw %r" % (exc, t.exc))
    if plan["stop"]["exc"] == "KeyboardInterrupt" and not isinstance(t.exc, KeyboardInterrupt):
        raise Violation("stop-replaced", "KeyboardInterrupt became %r" % t.exc)
    if t.torn:
        raise Violation("log-prefix", t.torn)
    n = len(t.evs)
    probes = {"stopped_in_" + inj.where[1]: 1}
    snap = t.cfg["best_model_state_dict"] if "best_model_state_dict" in t.cfg else None
    if snap is None:
        if n > 0:
            raise Violation("no-snapshot", "stopped at %s after %d evaluations without any best state" % (inj.where, n))
        return dict(nontrivial=False, probes=probes)
    snap = dict(snap)
    frozen = {a: b.detach().clone() for a, b in snap.items()}
    ref = t.reference()
    ok = []
    if n:
        ok += t.allowed_best(ref, n - 1)[0]
        # the evaluation in flight may or may not have been taken into account
        saved = t.evs[-1]["loglen"]
        t.evs[-1]["loglen"] = t._loglen() - 1
        ok += t.allowed_best(ref, n)[0]
        t.evs[-1]["loglen"] = saved
    else:
        ok = [t.initial]
    if not any(same_state(frozen, s) for s in ok):
        raise Violation(
            "snapshot-wrong",
            "stopped at %s in evaluation %d: the kept best state is %s, not the best valid design"
            % (inj.where, n, [i for i, e in enumerate(t.evs) if same_state(e["state"], frozen)]),
        )
    # the snapshot must not be the live model
    keep = state_of(t.cfg.model)
    with torch.no_grad():
        for p in t.cfg.model.parameters():
            p.add_(1.0)
    if not same_state({a: b.detach() for a, b in snap.items()}, frozen):
        raise Violation("snapshot-aliased", "the kept best state changes when the model changes (stopped at %s)" % (inj.where,))
    t.cfg.model.load_state_dict(keep)
    # logs are a faithful prefix
    succ = [i for i in range(n) if i < n - 1 and t.succeeded(i) == 1]
    res = t.cfg.results
    for name, key in (("loss_log", "loss"), ("L1_errs", "l1")):
        lg = list(res[name])
        want = succ if len(lg) == len(succ) else succ + [n - 1]
        if len(lg) != len(want):
            raise Violation("log-prefix", "%s has %d entries after %d completed evaluations (stopped at %s)" % (name, len(lg), len(succ), inj.where))
        for a, i in zip(lg, want):
            if ref[i] is not None and not ref[i]["amb"] and not close(a, ref[i][key], 1e-7, 1e-10):
                raise Violation("log-prefix", "%s entry for evaluation %d is %r, expected %r" % (name, i, a, ref[i][key]))
    # resume from the kept design
    t.cfg.model.load_state_dict(frozen)
    t.cfg.iterations = plan["resume"]
    nidn().run_training(t.cfg)
    fin = state_of(t.cfg.model)
    if finite_state(frozen) and not finite_state(fin):
        raise Violation("resume-broken", "resuming from the kept design returned non-finite parameters")
    l0, l1 = _valid_loss(t, frozen), _valid_loss(t, fin)
    if l0 is not None and (l1 is None or l1 > l0 + 1e-7 * max(1, abs(l0))):
        raise Violation("resume-worse", "resuming from a valid design with loss %r returned one with %r" % (l0, l1))
    if "results" not in t.cfg or len(t.cfg.results.loss_log) > plan["resume"]:
        raise Violation("resume-log", "the resumed run's record holds %d entries for %d iterations" % (len(t.cfg.results.loss_log), plan["resume"]))
    probes["resumed"] = 1
    W.ev("resumed", len(t.cfg.results.loss_log))
    return dict(nontrivial=n > 0, probes=probes, steps=n, sched="%s:%s:%d" % (inj.where[0], inj.where[1], n))


def _valid_loss(t, state):
    """reference loss of a state, None if it is not a physically valid design"""
    if not finite_state(state):
        return None
    save = t.evs
    t.evs = [dict(entry=state, state=state, kinds=[], gain=None, loglen=0, nsteps=0)]
    try:
        r = t.reference()[0]
    finally:
        t.evs = save
    if r is None or r["renorm"] or r["amb"] or not math.isfinite(r["loss"]):
        return None
    return r["loss"]
