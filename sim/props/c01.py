"""C01: training returns the best physically valid design it evaluated."""
from ..core import Violation
from ..train import TrainSim, gen_cfg, gen_long, gen_script, gen_prior
from ..util import same_state, finite_state

QUICK = dict(runs=700, budget=45)
THOROUGH = dict(runs=60000, budget=1500)
RUN_LIMIT = 100
RULE = (
    "a run is one training (random architecture, solver, loss, targets) under a seeded script of parameter jumps, "
    "NaN outputs/parameters/gradients and gain media per evaluation; non-trivial if at least one fault fired and "
    "at least two evaluations succeeded; distinct by event-log digest"
)
REAL = ["training loop", "networks (siren/nerf/voxel)", "TRCWA solver", "FDTD solver", "losses", "material data base", "torch optimiser/scheduler"]
STUB = ["nothing in the code under test; faults enter through torch module hooks on the model given in the configuration"]
KINDS = ["jump", "jump", "zero", "nan_out", "nan_some", "nan_params", "nan_grad", "gain", "gain"]


def gen(rng, tier, idx):
    c = gen_cfg(rng, tier)
    n = rng.randrange(2, 12 if tier == "quick" else 24)
    if c.get("solver") == "FDTD":
        n = min(n, 5)
    long = rng.random() < 0.03 and c.get("solver") != "FDTD"
    if long:
        n = gen_long(rng, c)
    c["iterations"] = n
    kinds = [k for k in KINDS if rng.random() < 0.6] or ["jump"]
    if c.get("imag_min_eps", 0.0) >= 0.0:
        kinds = [k for k in kinds if k != "gain"] or ["jump"]
    return {
        "cfg": c,
        "init_seed": rng.randrange(1 << 30),
        "init_scale": rng.choice([0.05, 0.3, 1.0]),
        "script": gen_script(rng, n, kinds, rng.choice([0.01, 0.05] if long else [0.0, 0.2, 0.4, 0.7]), c),
        "prior": gen_prior(rng),
    }


def run(plan, W):
    t = TrainSim(plan, W).run()
    if t.numeric_abort:
        return dict(probes={"solver_linalg_abort": 1}, nontrivial=False)
    if t.exc is not None:
        raise t.exc
    ref = t.reference()
    ok, val, amb = t.allowed_best(ref, len(t.evs))
    best = getattr(t.cfg, "best_model_state_dict", None) if "best_model_state_dict" in t.cfg else None
    if t.ret is not None and "model" in t.ret and t.ret.model is not t.cfg.model:
        from ..util import state_of

        t.final = state_of(t.ret.model)
    if not any(same_state(t.final, s) for s in ok):
        where = [i for i, e in enumerate(t.evs) if same_state(e["state"], t.final)]
        lst = [(i, round(r["loss"], 8), "unphysical" if r["renorm"] else "") for i, r in enumerate(ref) if r]
        cls = "returned-not-best"
        if not finite_state(t.final):
            cls = "returned-nan"
        elif not val and not amb:
            cls = "nothing-valid-not-initial"
        elif where and ref[where[0]] and ref[where[0]]["renorm"]:
            cls = "returned-unphysical"
        raise Violation(cls, "returned design is evaluation %s (None: never evaluated); evaluations: %s; best valid: %s" % (where, lst, min(val) if val else None))
    if best is not None and not any(same_state(dict(best), s) for s in ok):
        raise Violation("snapshot-not-best", "the recorded best state is not a best valid evaluated design")
    p = t.probes(ref)
    if not val and not amb:
        p["no_valid_design"] = 1
    return dict(
        probes=p,
        steps=len(t.evs),
        sched=str([(f["at"], f["kind"]) for f in plan["script"]]) + plan["cfg"]["model_type"],
        nontrivial=bool(plan["script"]) and sum(1 for r in ref if r) >= 2,
    )
