"""C02: recoverable solver failures never end training; it restores, slows down and goes on."""
from ..core import Violation
from ..train import TrainSim, gen_cfg, gen_long, gen_script, gen_prior
from ..trace import LineInjector
from ..util import same_state, finite_state
import torch

QUICK = dict(runs=1000, budget=45)
THOROUGH = dict(runs=60000, budget=1500)
RUN_LIMIT = 100
RULE = (
    "a run is one training under a seeded script of failing evaluations (NaN outputs, NaN parameters, NaN gradients, ValueErrors "
    "raised at a random line inside the solver; single, bursts, from the first evaluation on, or all of them); non-trivial if at "
    "least one evaluation failed; distinct by event-log digest"
)
REAL = ["training loop", "networks", "TRCWA solver", "FDTD solver", "losses", "material data base", "torch optimiser/scheduler"]
STUB = ["none; failures enter through torch module hooks and an injected exception at a chosen solver line"]
KINDS = ["nan_out", "nan_some", "nan_some", "nan_params", "nan_grad", "solver_error", "jump", "zero"]
SOLVER = ("trcwa", "fdtd", "fdtd_integration")


def gen(rng, tier, idx):
    c = gen_cfg(rng, tier)
    n = rng.choice([rng.randrange(2, 12)] * 5 + [24]) if tier == "quick" else rng.randrange(2, 40)
    if c.get("solver") == "FDTD":
        n = min(n, 4)
    long = rng.random() < 0.03 and c.get("solver") != "FDTD"
    if long:
        n = gen_long(rng, c)
    c["iterations"] = n
    kinds = [k for k in KINDS if rng.random() < 0.6] or ["nan_out"]
    mode = rng.random()
    if mode < 0.12 and not long:  # everything fails up to some point
        k = rng.choice(["nan_out", "nan_params", "nan_some"])
        upto = rng.randrange(1, n + 1)
        script = [{"at": i, "kind": k, "which": rng.randrange(64) if k == "nan_some" else 0} for i in range(upto)]
    elif mode < 0.3 and not long:  # one burst
        a = rng.randrange(n)
        script = [{"at": i, "kind": rng.choice(["nan_out", "nan_some", "nan_params", "nan_grad", "solver_error"]), "which": rng.randrange(8)} for i in range(a, min(n, a + rng.randrange(1, 5)))]
    else:
        script = gen_script(rng, n, kinds, rng.choice([0.01, 0.05] if long else [0.1, 0.3, 0.5]), c)
    for f in script:
        if f["kind"] == "solver_error":
            f["line"] = rng.choice([1, 2, 3, 5, 10, 30, 80, 200])
    return {"cfg": c, "init_seed": rng.randrange(1 << 30), "init_scale": rng.choice([0.05, 0.3, 1.0]), "script": script, "prior": gen_prior(rng, 0.15)}


class Sim(TrainSim):
    """Adds ValueErrors raised from inside the solver."""

    def __init__(self, plan, W):
        super().__init__(plan, W)
        self.armed = None
        self.injected = set()

    def _post(self, module, args, out):
        out = super()._post(module, args, out)
        i = len(self.evs) - 1
        self.armed = None
        for f in self.script.get(i, []):
            if f["kind"] == "solver_error":
                self.armed = [i, f["line"]]
        return out

    def _pre(self, module, args):
        self.armed = None
        return super()._pre(module, args)

    def _step(self, *a):
        self.armed = None
        return super()._step(*a)

    def trace(self, frame, event, arg):
        if self.armed is None:
            return None
        from ..trace import in_pkg

        rel = in_pkg(frame.f_code.co_filename)
        if not rel or not rel.startswith(SOLVER):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line" and self.armed is not None:
            self.armed[1] -= 1
            if self.armed[1] <= 0:
                i = self.armed[0]
                self.armed = None
                self.injected.add(i)
                self.W.fire("solver_ValueError_at_line")
                raise ValueError("simulated solver failure")
        return self.local


def run(plan, W):
    t = Sim(plan, W)
    t.run(t.trace if any(f["kind"] == "solver_error" for f in plan["script"]) else None)
    if t.numeric_abort:
        return dict(probes={"solver_linalg_abort": 1}, nontrivial=False)
    n = int(t.cfg.iterations)
    if t.exc is not None:
        raise Violation("aborted", "training ended with %s: %s after %d of %d evaluations; script %s" % (type(t.exc).__name__, str(t.exc)[:200], len(t.evs), n, plan["script"]))
    if len(t.evs) != n:
        raise Violation("wrong-count", "%d evaluations for %d iterations" % (len(t.evs), n))
    ref = t.reference()
    failures = 0
    stepi = 0
    consecutive = 0
    for i, e in enumerate(t.evs):
        d = t.succeeded(i)
        legit = ref[i] is None or i in t.injected
        nsteps = (t.evs[i + 1]["nsteps"] if i + 1 < n else len(t.steps)) - e["nsteps"]
        if d not in (0, 1):
            raise Violation("log-count", "evaluation %d appended %d loss entries" % (i, d))
        if d == 0 and not legit:
            raise Violation("needless-failure", "evaluation %d of a finite design produced no result (kinds %s)" % (i, e["kinds"]))
        if d == 1 and legit:
            raise Violation("failure-ignored", "evaluation %d failed in the solver but was recorded as a result" % i)
        if nsteps != d:
            raise Violation("update-count", "evaluation %d (%s) was followed by %d parameter updates" % (i, "ok" if d else "failed", nsteps))
        if d == 1:
            st = t.steps[e["nsteps"]]
            lrs = set(st["lr"])
            want = t.cfg.learning_rate * 0.5**failures
            if any(abs(x - want) > 1e-9 * want for x in lrs):
                raise Violation("learning-rate", "update after evaluation %d used lr %s; %d failures so far ask for %g" % (i, sorted(lrs), failures, want))
            gfin = all(g is None or bool(torch.isfinite(torch.view_as_real(g) if g.is_complex() else g).all()) for g in st["grads"].values())
            # (a design that came in broken and was repaired by the simulator alone proves nothing)
            if i + 1 < n and gfin and finite_state(e["entry"]) and not finite_state(t.evs[i + 1]["entry"]):
                raise Violation("poisoned", "a finite gradient at evaluation %d left non-finite parameters: earlier failures still act" % i)
        else:
            failures += 1
            after = t.evs[i + 1]["entry"] if i + 1 < n else None
            ok, val, amb = t.allowed_best(ref, i)
            if after is not None and not any(same_state(after, s) for s in ok):
                raise Violation("not-restored", "after the failure at evaluation %d training did not continue from the best valid design so far" % i)
    p = t.probes(ref)
    p["failures_total"] = failures
    return dict(probes=p, steps=n, sched=str([(f["at"], f["kind"], f.get("line")) for f in plan["script"]]), nontrivial=failures > 0)
